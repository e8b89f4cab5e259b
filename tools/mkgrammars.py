#!/usr/bin/env python3
"""Writes driver/grammars_gen.go: struct types with rule fields (run by hand;
Go can not make types with methods at run time)."""
import os, random
R = random.Random(7)
GOOD = ["a", "Z", "Value", "x1", "a-b", "a.b", "a_b", "a+b", "B2-c.d_e+f", "rule", "zZ9", "q+", "w-", "e.", "r_"]
BAD = ["1a", "a b", "ä", "aä", "a/b", "-a", "_x", "+", ".", "a ", " a", "a:b", "9", "a@", "a[", "`", "A{"]
BAD = [b for b in BAD if "`" not in b]
out = ["// Code generated by tools/mkgrammars.py. DO NOT EDIT.", "package main", "", 'import "github.com/aiq/tok"', "",
       "type myRule tok.Rule", "", "type wrapRule struct{ tok.Rule }", ""]
cases = []
NAMES = ["Alpha", "Bravo", "Carol", "Delta", "Echo", "Fox", "Golf", "Hotel"]
N = 72
BIG = [30, 80, 150, 330, 90, 310]      # many fields, the last with one bad tag at the end
for t in range(N + len(BIG)):
    fields = []
    names = NAMES[:]
    n = t % 7
    mode = t % 3            # 0: all tags good, 1: mixed, 2: any
    if t >= N:
        n, mode = BIG[t - N], 0
        names = ["F%03dx" % k for k in range(n)]
    for k in range(n):
        f = names[k]
        r = R.random()
        kind = "rule"
        typ = "tok.Rule"
        if r < 0.1:
            kind, f = "hidden", f.lower()
        elif r < 0.25:
            kind = "other"
            typ = R.choice(["int", "string", "*tok.Rule", "[]tok.Rule", "tok.Reader", "myRule", "wrapRule", "struct{ A tok.Rule }"])
        tag = None
        x = R.random()
        if x < 0.75:
            tag = R.choice(GOOD)
        if mode and R.random() < (0.25 if mode == 1 else 0.5):
            tag = R.choice(BAD + [""])
        if t >= N and k == n // 2:
            tag = "n" * n
        if t >= N + 4 and k == n - 2:
            f, kind, typ, tag = names[k], "rule", "tok.Rule", "1a"
        fields.append((f, kind, typ, tag))
    out.append("type gram%d struct {" % t)
    for f, kind, typ, tag in fields:
        s = ""
        if tag is not None:
            pre = R.choice(["", "", 'json:"j" ', 'x:"" '])
            s = " `%sname:\"%s\"`" % (pre, tag)
        elif R.random() < 0.3:
            s = ' `json:"name"`'
        out.append("\t%s %s%s" % (f, typ, s))
    out.append("}")
    out.append("")
    out.append("func (g *gram%d) Read(s *tok.Scanner) error { return nil }" % t)
    out.append("func (g *gram%d) What() string { return \"gram\" }" % t)
    out.append("func (g *gram%d) Grammar() []*tok.Rule { return tok.CollectRules(g) }" % t)
    rules = ", ".join("&g.%s" % f for f, k, _, _ in fields if k == "rule")
    out.append("func (g *gram%d) rules() []*tok.Rule { return []*tok.Rule{%s} }" % (t, rules))
    out.append("func (g *gram%d) fields() []field {" % t)
    out.append("\treturn []field{")
    for f, kind, typ, tag in fields:
        out.append("\t\t{%s, %s, %d, %s}," % ('"%s"' % f, '"%s"' % kind, 0 if tag is None else 1, '"%s"' % (tag or "")))
    out.append("\t}")
    out.append("}")
    out.append("")
    cases.append("func() gramCase { return &gram%d{} }" % t)
out.append("var gramCases = []func() gramCase{")
out += ["\t%s," % c for c in cases]
out.append("}")
out.append("")
out.append("const bigGrams = %d" % len(BIG))
d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "driver", "grammars_gen.go")
open(d, "w").write("\n".join(out) + "\n")
