"""What is done for each property, by tier."""
import json
import os

T = os.environ.get("VERIF_TIER") == "thorough"


def q(quick, thorough):
    return thorough if T else quick


def cells(n, *names):
    return ' MaxCells = %d\n CellSet = {%s}' % (n, ", ".join('"%s"' % x for x in names))


SCAN = ("a", "A", "b", "ae", "shi", "ff", "fffd")
CALLS = lambda r: len(r["c"])


OPS = {
    "C02": ("If", "IfAny", "IfFold", "IfR"),
    "C03": ("To", "ToFold", "ToR"),
    "C04": ("WhileR", "While"),
    "C05": ("RevIf", "RevIfAny", "RevIfFold", "RevIfR"),
    "C06": ("RevTo", "RevToFold", "RevToR", "RevWhileR"),
    "C07": ("MoveRunes", "ScanString", "ReadRune", "RevReadRune"),
    "C08": ("ReadInt", "ReadUint", "IntReader", "UintReader"),
    "C09": ("ReadBool", "BoolReader"),
    "C30": ("LineCol",),
}


def calls(law, constants):
    """The laws on the specification; all of its texts, positions and calls
    are replayed on the code, and what the code does with others is checked."""
    def plan(run):
        got = run.generate("MCScanner", "Law" + law, constants)
        ops = sorted((x["o"] for x in got if "o" in x and x["o"]["op"] in OPS[law]), key=str)
        rows, left = [], q(500000, 3000000)
        for t in sorted((x["t"] for x in got if "t" in x), key=lambda t: (len(t), t)):
            rows.append({"kind": "calls", "t": t, "o": ops, "c": [[p, i + 1] for p in range(len(t) + 1) for i in range(len(ops))]})
            left -= len(rows[-1]["c"])
            if left < 0:
                break
        run.replay("CallTrace", rows, count=CALLS)
        run.validate("CallTrace", law, count=CALLS)
        histories(run, law, constants)
        run.validate("SessTrace", "S" + law[1:], inv="FirstOK InText", count=STEPS)
    return plan


STEPS = lambda r: len(r["s"])


def histories(run, group, constants):
    """Histories that TLC's simulator takes through the specification, replayed."""
    got = run.simulate("MCSession", "InText EmitS", "SpecS", constants + '\n Calls2Take = %d\n Group = "%s"' % (q(40, 60), group), q(400, 5000), 80)
    rows = []
    for k, x in enumerate(got):
        ops = sorted({json.dumps(o, sort_keys=True) for o in x["o"]})
        at = {o: i + 1 for i, o in enumerate(ops)}
        rows.append({"kind": "sess", "t": x["t"], "rev": x["rev"], "track": 1 if group == "C29" else k % 2, "o": [json.loads(o) for o in ops],
                     "s": [{"o": at[json.dumps(o, sort_keys=True)]} for o in x["o"]]})
    run.replay("SessTrace", rows, inv="FirstOK InText", count=STEPS)


def c01(run):
    run.model("MCScanner", "LawC01", spec="SpecAll", constants=cells(q(3, 4), *SCAN))
    histories(run, "C01", cells(q(4, 5), *SCAN))
    run.validate("SessTrace", "C01", inv="FirstOK InText", count=STEPS)


def token_rows(got):
    l = sorted(x["t"] for x in got)
    for k, t in enumerate(l):
        for j, u in enumerate(l):
            m = [t, t[::-1]][j % 2] + [u, u[::-1]][k % 2]      # markers in both orders
            yield {"kind": "token", "m": m}


def graph_rows(got):
    for k, x in enumerate(got):
        l = x["segs"]
        yield {"kind": "graph", "name": ("root", "", "1")[k % 3], "segs": l, "oth": (l[::-1], l[1:], l, l[:1] + l[2:] + l[1:2])[k % 4]}


def sort_rows(got):
    orders = [[], ["1"], ["2"], ["1", "2"], ["2", "1"]]
    for x in got:
        yield {"kind": "sort", "segs": x["segs"], "by": 0, "order": []}
        for o in orders:
            yield {"kind": "sort", "segs": x["segs"], "by": 1, "order": o}


def tile_rows(got):
    for k, x in enumerate(got):
        top = max([s[2] for s in x["segs"]], default=0)
        low = min([s[1] for s in x["segs"]], default=0)
        for a, b in sorted({(0, top), (low, top), (low, top + 1), (0, top + 2), (min(low + 1, top), top)} if k % 2 else {(low, top), (0, top + 1)}):
            yield {"kind": "segmentate", "seg": ["" if a == 0 else "t", a, b], "sca": 1 if a == 0 else 0, "segs": x["segs"]}


def segs(prop, spec, constants, emit, rows, most):
    def plan(run):
        got = run.generate("MCSegments", "Law" + prop, constants, emit=emit, spec=spec)
        got.sort(key=str)
        run.replay("SegTrace", run.sample(list(rows(got)), most), count=lambda r: len(r.get("steps", "1")))
        run.validate("SegTrace", prop, count=lambda r: len(r.get("steps", "1")))
    return plan


def c23(run):
    got = run.generate("MCRules", "LawC23", " MaxLen = %d" % q(3, 5))
    run.replay("RuleTrace", [{"kind": "name", "t": t} for t in run.sample(sorted(got), 60000)])
    run.validate("RuleTrace", "C23")


def size(pos, n):
    return " MaxPos = %d\n MaxSegs = %d" % (pos, n)


DOCS = lambda r: len(r["runs"])


def runs(kind, one, texts):
    """Rows of the driver, 40 texts each."""
    for i in range(0, len(texts), 40):
        yield {"kind": kind, "one": one, "runs": texts[i:i + 40]}


def language(run, module, law, size):
    """The texts derived from a grammar; the recogniser of the specification
    must accept these and, up to the listed length, no others."""
    derived, listed = {}, {}
    for x in run.generate(module, law, size):
        key = tuple(x["t"])
        if "d" in x:
            derived.setdefault(x["d"], {})[key] = x["n"]
        else:
            listed.setdefault((x["a"], x["n"]), set()).add(key)
    for g, n in listed:
        if listed[g, n] != {t for t in derived[g] if derived[g][t] <= n}:
            raise run.Error("grammar and recogniser of %s differ in slice %s: %r" % (
                module, g, sorted(listed[g, n] ^ {t for t in derived[g] if derived[g][t] <= n})[:3]))
    return sorted({t for g in derived for t in derived[g]})


def deep():
    return " Deep = %s" % q("FALSE", "TRUE")


def c25(run):
    texts = language(run, "MCJson", "LawC25", deep())
    run.replay("GrammarTrace", runs("json", 1, [{"t": t, "part": ""} for t in texts]), count=DOCS)
    run.validate("GrammarTrace", "C25", count=DOCS)


def c26(run):
    cases = run.generate("MCMxt", "LawC26", " MaxChunks = %d\n MaxLines = %d\n Small = %s" % q((2, 1, "TRUE"), (2, 2, "TRUE")))
    if T:
        cases += run.generate("MCMxt", "LawC26", " MaxChunks = 1\n MaxLines = 3\n Small = FALSE")
        cases += run.generate("MCMxt", "LawC26", " MaxChunks = 3\n MaxLines = 1\n Small = TRUE")
    else:
        cases += run.generate("MCMxt", "LawC26", " MaxChunks = 1\n MaxLines = 2\n Small = FALSE")
    cases.sort(key=lambda c: (c["t"], c["want"]))
    run.replay("GrammarTrace", runs("mxt", 1, [dict(c, part="") for c in cases]), count=DOCS)
    run.validate("GrammarTrace", "C26", count=DOCS)


def c27(run):
    words = {"Name": "a", "Num": "1", "Str": "'s'"}
    texts = language(run, "MCLua", "LawC27", deep())
    texts = [list(" ".join(words.get(w, w) for w in t).encode()) for t in texts]
    run.replay("GrammarTrace", runs("lua", 1, [{"t": t, "part": ""} for t in texts]), count=DOCS)
    run.validate("GrammarTrace", "C27", count=DOCS)


READS = lambda r: len(r["runs"]) + len(r["root"])
PEG = ("opt", "many", "zom", "times")
LOOK = ("at", "not", "to", "past")
BINARY = ("seq", "any", "body", "bodytail", "skipseq")
TEXTS = [b"", b"a", b"b", b"aa", b"ab", b"ba", b"bb", b"aab", b"aba", b"abb", b"bab", b"baa", b"abab", b"\xc3\xa4a", b"a\xff"]


def names(l):
    return "{%s}" % ", ".join('"%s"' % x for x in l)


def reads(law, leafs, unary, binary, tr=("none",), obs="", apis=("Use", "Read"), suite=None, mode=1):
    """The laws on all small expressions; these are replayed on the code, and
    what the code does with others is checked."""
    def plan(run):
        size = " Leafs = %s\n Unary = %s\n Binary = %s\n MaxText = %d\n" % (names(leafs), names(unary), names(binary), q(2, 3))
        got = run.generate("MCReaders", "Law" + law, size + " MaxNodes = %d" % q(4, 5), constraint="Fits")
        got.sort(key=str)
        few = [x for x in got if len(x["n"]) <= 3]
        more = [x for x in got if len(x["n"]) > 3]
        few += run.sample(more, q(2000, 30000))
        rows = []
        for k, x in enumerate(few):
            rows.append({"kind": "read", "n": x["n"], "root": [len(x["n"])], "cells": x["cells"], "tx": [list(t) for t in TEXTS],
                         "tr": tr[k % len(tr)], "obs": obs, "runs": [] if obs == "what" else [
                {"i": 1, "t": j + 1, "at": 1 if (j + k) % 5 == 4 else 0, "api": apis[(j + k) % len(apis)],
                 "mode": mode if j else 0, "rst": 1, "pn": j % 4 - 1} for j in range(len(TEXTS))]})
        run.replay("ReaderTrace", rows, inv="WhatOK", count=READS)
        run.validate("ReaderTrace", suite or law, inv="WhatOK", count=READS)
    return plan


USES = ("Use", "Read", "TraceUse", "TraceUseFunc", "UseFunc", "TokenizeUse", "CaptureUse")
ALL = USES + ("Scope", "Trace", "Tokenize", "Capture", "UseFunc!", "TraceUseFunc!", "Scope!", "Trace!", "Tokenize!", "Capture!")
READERS = {
    "C10": reads("C10", ("a", "ab", "wrap", "other"), PEG + LOOK + ("pick",), BINARY, tr=("none", "basket"), apis=ALL),
    "C11": reads("C11", ("a", "b", "ab", "empty"), PEG, ("seq", "any", "skipseq")),
    "C12": reads("C12", ("a", "ab", "empty", "end"), LOOK + ("many", "opt"), ("seq", "any", "body", "bodytail")),
    "C13": reads("C13", ("a", "empty", "end"), PEG + LOOK, BINARY),
    "C14": reads("C14", ("a", "ab", "wrap", "other"), PEG + LOOK, BINARY, apis=USES),
    "C15": reads("C15", ("a", "ab", "jend"), ("jbeg", "many", "at", "to", "opt"), ("seq", "any", "bodytail")),
    "C16": reads("C16", ("a", "ab", "empty"), ("pick", "opt", "many", "at", "not", "to", "past"), BINARY, tr=("basket",), mode=0),
    "C17": reads("C17", ("a", "ab"), ("map", "pick", "mon", "named", "zom", "at", "not", "past"), ("seq", "any", "body"), tr=("none", "basket"), obs="strip"),
    "C18": reads("C18", ("a", "ab"), ("mon", "many", "at", "not", "to", "opt"), ("seq", "any", "body", "bodytail"), obs="print"),
    "C24": reads("C24", ("a", "empty", "end", "inv"), PEG + LOOK + ("named", "map", "pick", "mon"), BINARY, obs="what"),
    "C28": reads("C11", ("a", "ab", "empty"), PEG + LOOK, BINARY, apis=USES, suite="C28"),
    "C31": reads("C12", ("a", "ab", "end"), PEG + LOOK, BINARY, apis=ALL, suite="C31"),
}


def c29(run):
    run.model("MCScanner", "LawC01", spec="SpecAll", constants=cells(q(2, 3), *SCAN))
    histories(run, "C29", cells(q(4, 5), *SCAN))
    run.validate("SessTrace", "C29", inv="FirstOK InText", count=STEPS)
    reads("C12", ("a", "ab", "wrap"), PEG + LOOK, BINARY, tr=("rec",), apis=ALL, suite="C29read")(run)


def c13(run):
    READERS["C13"](run)
    run.validate("GrammarTrace", "C13grammar", count=DOCS)


PLANS = {
    "C01": c01,
    "C02": calls("C02", cells(q(3, 4), *SCAN, "kelvin", "k")),
    "C03": calls("C03", cells(q(3, 4), *SCAN, "kelvin", "k")),
    "C04": calls("C04", cells(q(3, 4), *SCAN, "cont")),
    "C05": calls("C05", cells(q(3, 4), *SCAN, "cont")),
    "C06": calls("C06", cells(q(3, 4), *SCAN, "cont")),
    "C07": calls("C07", cells(q(3, 4), *SCAN, "cont", "smile")),
    "C08": calls("C08", cells(q(4, 5), "d0", "d1", "d2", "d7", "d8", "plus", "minus", "hf", "ff")),
    "C09": calls("C09", cells(q(3, 5), "tr", "fl", "t", "a")),
    "C30": calls("C30", cells(q(5, 7), "a", "nl", "cr", "tab", "ae")),
    "C29": c29,
    "C19": segs("C19", "Spec", size(q(7, 10), 0), "EmitTokens", token_rows, 10000),
    "C20": segs("C20", "Spec", size(3, q(4, 5)), "EmitFull", graph_rows, q(10000, 40000)),
    "C21": segs("C21", "SpecLists", size(q(2, 3), 3), "EmitLists", sort_rows, 60000),
    "C23": c23,
    "C25": c25,
    "C26": c26,
    "C27": c27,
    "C22": segs("C22", "SpecLists", size(q(3, 4), 3), "EmitLists", tile_rows, q(15000, 90000)),
    **READERS,
    "C13": c13,
}


REPLAY = ("C01",) + tuple(OPS) + tuple(READERS) + ("C19", "C20", "C21", "C22", "C23", "C25", "C26", "C27", "C29")
