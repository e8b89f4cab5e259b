#!/usr/bin/env python3
"""Warms the Go build cache and parses the specification; the checks do not
depend on anything this leaves behind."""
import os, subprocess, sys, tempfile, shutil
import check

d = tempfile.mkdtemp()
try:
    subprocess.run(["go", "build", "-o", os.path.join(d, "driver"), "."], check=True,
                   cwd=os.path.join(check.VERIF, "driver"), env=check.go_env())
    for f in sorted(os.listdir(check.SPEC)):
        if f.endswith(".tla"):
            p = subprocess.run(["java", "-cp", check.JAVA_CP, "tla2sany.SANY", f], cwd=check.SPEC,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode != 0 or "*** Errors" in p.stdout or "Fatal" in p.stdout:
                sys.exit("specification %s does not parse:\n%s" % (f, p.stdout[-2000:]))
finally:
    shutil.rmtree(d, ignore_errors=True)
print("ok")
