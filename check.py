#!/usr/bin/env python3
"""Decides one property of aiq/tok: python3 check.py C01

1. TLC checks the laws of the property on the specification (spec/MC*.tla).
2. The Go driver (built from /repo's working tree) runs cases on the real code
   and records what happened; TLC checks the recorded rows against the
   specification (spec/*Trace.tla), or the rows are generated by TLC from the
   specification and replayed by the driver.

Exit 0: the property held.  Exit 1 and a VIOLATION line: it is broken.
Anything else: the check itself did not work.
"""
import json, os, random, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(VERIF, "spec")
JAVA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
TIER = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
try:
    SEED = int(os.environ.get("VERIF_SEED", "1"))
except ValueError:
    SEED = 1
THOROUGH = TIER == "thorough"
PART = 50 << 20    # bytes of rows for one run of TLC


class CheckError(Exception):
    pass


def go_env():
    env = dict(os.environ)
    env.update(GOFLAGS="-mod=mod -buildvcs=false", GOPROXY="off", GOTOOLCHAIN="local",
               GOWORK="off", GO111MODULE="on", CGO_ENABLED="0")
    env.pop("GOOS", None)
    env.pop("GOARCH", None)
    env.setdefault("HOME", "/root")
    if "/usr/local/go/bin" not in env.get("PATH", ""):
        env["PATH"] = "/usr/local/go/bin:" + env.get("PATH", "/usr/bin:/bin")
    return env


class Run:
    """One run of the check for one property."""
    Error = CheckError

    def __init__(self, prop):
        self.prop = prop
        self.work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.driver = None
        self.states = 0
        self.transitions = 0
        self.rows = 0
        self.runs = 0
        self.samples = []
        self.mismatches = []   # (row or None, details)
        self.known = {}        # id -> count
        self.notes = []
        self.start = time.time()

    # ------------------------------------------------------------------ tools
    def build(self):
        if self.driver:
            return self.driver
        out = os.path.join(self.work, "driver")
        p = subprocess.run(["go", "build", "-o", out, "."], cwd=os.path.join(VERIF, "driver"),
                           env=go_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise CheckError("the driver does not build:\n" + p.stdout)
        self.driver = out
        return out

    def tlc(self, module, cfg, env=None, timeout=840, workers=8, extra=(), done=None):
        """Runs TLC; returns the lines the specification printed."""
        cfgfile = os.path.join(self.work, "%s-%d.cfg" % (module, len(os.listdir(self.work))))
        with open(cfgfile, "w") as f:
            f.write(cfg)
        meta = tempfile.mkdtemp(prefix="meta", dir=self.work)
        e = dict(os.environ)
        e.update(env or {})
        e.setdefault("PROP", self.prop)
        cmd = ["java", "-Xss256m", "-XX:+UseParallelGC", "-cp", JAVA_CP, "tlc2.TLC",
               "-noGenerateSpecTE", "-metadir", meta, "-workers", str(workers),
               "-config", cfgfile] + list(extra) + [module + ".tla"]
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, errors="replace", timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC did not finish %s in %d s" % (module, timeout))
        shutil.rmtree(meta, ignore_errors=True)
        printed = []
        for line in p.stdout.splitlines():
            if line.startswith('"'):
                try:
                    printed.append(json.loads(line))
                except ValueError:
                    raise CheckError("can not read TLC's output: " + line[:300])
        if done:
            m = re.search(done, p.stdout)
            if p.returncode == 0 and m and "Error:" not in p.stdout:
                return printed, int(m.group(1))
            raise CheckError("TLC failed on %s (%d):\n%s" % (module, p.returncode, p.stdout[-2000:]))
        m = re.search(r"(\d+) states generated, (\d+) distinct states found, 0 states left", p.stdout)
        if p.returncode != 0 or "No error has been found" not in p.stdout or not m:
            tail = "\n".join(l for l in p.stdout.splitlines() if not re.match('"|Parsing|Semantic', l))[-3000:]
            raise CheckError("TLC failed on %s (%d):\n%s" % (module, p.returncode, tail))
        return printed, int(m.group(2)), int(m.group(1))

    # ------------------------------------------------------------------ steps
    def model(self, module, laws, spec="Spec", constants="", env=None, constraint=None):
        """Model checks laws of the specification."""
        t = time.time()
        cfg = "SPECIFICATION %s\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n" % (spec, laws)
        if constants:
            cfg += "CONSTANTS\n" + constants + "\n"
        if constraint:
            cfg += "CONSTRAINT %s\n" % constraint
        printed, distinct, generated = self.tlc(module, cfg, env=env)
        self.states += distinct
        self.transitions += generated
        self.notes.append("%s %s: %d states, %.1f s" % (module, laws, distinct, time.time() - t))
        return printed

    def generate(self, module, law, constants, constraint=None, emit="Emit", spec="Spec"):
        """Model checks the law and returns what the specification printed."""
        return [json.loads(x) for x in self.model(module, law + " " + emit, spec=spec, constants=constants, constraint=constraint)]

    def simulate(self, module, laws, spec, constants, num, depth):
        """Random behaviours of the specification, by TLC's simulator."""
        t = time.time()
        cfg = "SPECIFICATION %s\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\nCONSTANTS\n%s\n" % (spec, laws, constants)
        printed, states = self.tlc(module, cfg, workers=1, extra=("-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(SEED)),
                                   done=r"The number of states generated: (\d+)")
        if len(printed) != num:
            raise CheckError("TLC's simulator printed %d of %d behaviours" % (len(printed), num))
        self.notes.append("%s simulated: %d behaviours, %d states, %.1f s" % (module, num, states, time.time() - t))
        self.states += states
        self.transitions += states
        return [json.loads(x) for x in printed]

    def sample(self, items, n):
        return items if len(items) <= n else random.Random(SEED).sample(items, n)

    def replay(self, module, rows, **kw):
        """Runs cases that come from the specification on the real code."""
        infile = os.path.join(self.work, "cases-%d.ndjson" % len(os.listdir(self.work)))
        with open(infile, "w") as f:
            for r in rows:
                f.write(json.dumps(r) + "\n")
        self.validate(module, "rows", infile=infile, **kw)

    def drive(self, suite, infile=None):
        """Runs cases on the real code; returns the file of recorded rows, or
        None after a hang or crash that was reproduced."""
        self.build()
        stopped = []
        for attempt in (1, 2):
            out = os.path.join(self.work, suite + ".ndjson")
            cmd = [self.driver, suite, "-seed", str(SEED), "-tier", TIER, "-out", out]
            if infile:
                cmd += ["-in", infile]
            if attempt == 2:
                cmd += ["-limit", "40"]
            try:
                p = subprocess.run(cmd, cwd=self.work, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                   text=True, errors="replace", timeout=600)
            except subprocess.TimeoutExpired:
                raise CheckError("the driver did not finish %s" % suite)
            if p.returncode == 0:
                m = re.search(r"ROWS (\d+)", p.stdout)
                self.rows += int(m.group(1))
                return out
            cur = None
            if os.path.exists(out + ".cur"):
                cur = open(out + ".cur").read()
            if p.returncode in (3, 4):
                why = "does not return" if p.returncode == 3 else "needs more and more memory"
            elif cur is not None and ("fatal error" in p.stderr or "goroutine " in p.stderr or p.returncode < 0):
                why = "crashes: " + p.stderr.strip().splitlines()[0][:200] if p.stderr.strip() else "crashes"
            else:
                raise CheckError("the driver failed on %s (%d): %s" % (suite, p.returncode, p.stderr[-2000:]))
            stopped.append((cur, why))
        if stopped[0][0] is None or stopped[0][0] != stopped[1][0]:
            raise CheckError("a stop of the driver on %s did not reproduce: %s" % (suite, stopped))
        try:
            row = json.loads(stopped[1][0])
        except ValueError:
            row = stopped[1][0]
        self.mismatches.append((row, {"problem": "the code under test " + stopped[1][1]}))
        return None

    def validate(self, module, suite, infile=None, spec="Spec", inv="RowOK", constants="", count=None):
        """Records real behaviour and checks it against the specification."""
        rowsfile = self.drive(suite, infile)
        if rowsfile is None:
            return
        rows = open(rowsfile).read().splitlines()
        if not rows:
            raise CheckError("no rows were recorded for " + suite)
        t = time.time()
        cfg = "SPECIFICATION %s\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n" % (spec, inv)
        if constants:
            cfg += "CONSTANTS\n" + constants + "\n"
        at = 0
        while at < len(rows):        # TLC holds all rows of a part in memory
            part, size = [], 0
            for r in rows[at:]:
                if part and size + len(r) > PART:
                    break
                part.append(r)
                size += len(r)
            with open(rowsfile, "w") as f:
                f.write("\n".join(part) + "\n")
            printed, distinct, generated = self.tlc(module, cfg, env={"ROWS": rowsfile})
            if distinct < len(part):
                raise CheckError("TLC looked at %d of %d rows" % (distinct, len(part)))
            self.states += distinct
            self.transitions += generated
            self.collect(printed, part)
            at += len(part)
        n = sum((count or (lambda r: 1))(json.loads(r)) for r in rows)
        self.runs += n
        self.notes.append("%s of %s: %d rows, %d executions, %.1f s" % (module, suite, len(rows), n, time.time() - t))
        for i in (len(rows) // 3, 2 * len(rows) // 3):
            if len(rows[i]) < 3000 and len(self.samples) < 4:
                self.samples.append(json.loads(rows[i]))
            elif len(self.samples) < 4:
                self.samples.append(rows[i][:1500] + "...")

    def collect(self, printed, rows):
        for line in printed:
            tag, _, rest = line.partition(" ")
            num, _, details = rest.partition(" ")
            if tag == "KNOWN":
                k = json.loads(details)["id"]
                self.known[k] = self.known.get(k, 0) + 1
            elif tag == "MISMATCH":
                try:
                    d = json.loads(details)
                except ValueError:
                    d = details
                i = int(num)
                self.mismatches.append((json.loads(rows[i - 1]) if 0 < i <= len(rows) else None, d))

    # ----------------------------------------------------------------- verdict
    def finish(self):
        known = json.load(open(os.path.join(VERIF, "known_findings.json")))
        listed = {k["id"]: k for k in known["findings"] if k["property"] == self.prop}
        for k in sorted(self.known):
            if k in listed:
                print("KNOWN-FINDING: property=%s %s %s (%d cases of this run)" %
                      (self.prop, k, listed[k]["what"], self.known[k]))
            else:
                self.mismatches.append((None, {"problem": "deviation %s is not listed for this property" % k}))
        bad = len(self.mismatches)
        evdir = os.path.join(VERIF, "evidence")
        os.makedirs(evdir, exist_ok=True)
        replay = os.path.join(evdir, "replay-%s.json" % self.prop)
        if bad:
            row, details = min(self.mismatches, key=lambda m: len(json.dumps(m)))
            with open(replay, "w") as f:
                json.dump({"property": self.prop, "seed": SEED, "tier": TIER, "mismatch": details,
                           "case": row, "all_mismatches": bad,
                           "more": [m[1] for m in self.mismatches[:20]]}, f, indent=1)
        elif os.path.exists(replay):
            os.remove(replay)
        ev = {"property": self.prop, "tier": TIER, "seed": SEED, "level": "model_checking",
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.runs,
                           "rows": self.rows, "samples": self.samples or ["no rows"],
                           "steps": self.notes,
                           "known_findings_seen": self.known},
              "assumptions": ASSUMPTIONS,
              "wall_s": round(time.time() - self.start, 2), "violations": bad}
        tmp = os.path.join(evdir, ".%s.tmp" % self.prop)
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(evdir, self.prop + ".json"))
        for n in self.notes:
            print(n)
        if bad:
            print("%d recorded executions are not behaviours of the specification, e.g.:" % bad)
            print(json.dumps(details)[:1500])
            print("VIOLATION property=%s replay=%s" % (self.prop, replay))
            return 1
        print("OK property=%s states=%d executions=%d %.1f s" %
              (self.prop, self.states, self.runs, time.time() - self.start))
        return 0


ASSUMPTIONS = [
    "TLC and the TLA+ CommunityModules evaluate the specification correctly",
    "the driver records faithfully what the public API of aiq/tok returned",
    "behaviour outside of the explored texts, readers and histories is like the behaviour inside",
]

import plans  # noqa: E402


def main():
    if len(sys.argv) != 2 or sys.argv[1] not in plans.PLANS:
        print("usage: check.py " + "|".join(sorted(plans.PLANS)), file=sys.stderr)
        return 2
    run = Run(sys.argv[1])
    try:
        plans.PLANS[sys.argv[1]](run)
        return run.finish()
    except CheckError as e:
        print("ERROR: %s" % e)
        return 2
    finally:
        shutil.rmtree(run.work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
