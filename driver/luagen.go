package main

import (
	"math/rand"
	"strings"
)

// luaGen writes random Lua programs as lists of symbols.
type luaGen struct {
	r *rand.Rand
	l []string
}

func (g *luaGen) put(l ...string) { g.l = append(g.l, l...) }
func (g *luaGen) of(l ...string) string {
	return l[g.r.Intn(len(l))]
}
func (g *luaGen) name() string {
	return g.of("a", "b", "x1", "_", "_v", "Name", "endo", "iff", "notx", "doit", "nilly", "in_", "order", "Do", "e", "f", "returned", "locals")
}
func (g *luaGen) num() string {
	return g.of("0", "1", "42", "3.14", "1e3", "2E-1", "0x1F", "0xA.8p1", "0x.8", "0xAp-1", "5.", ".5", ".5e1", "1.5e+7")
}
func (g *luaGen) str() string {
	return g.of(`""`, `"a"`, `'b c'`, `"\n\\\""`, `'\''`, `"\065"`, `"\x41\u{48}"`, `[[]]`, `[[x]y]]`, `[==[a]]b]=]c]==]`, "[=[l\nm]=]", `"--no"`, `'end'`, "\"\u00e4\"", `[[--no]]`, "\"\t\"", "'a\\\nb'", "\"a\\z \n\t b\"", `"\0"`)
}
func (g *luaGen) list(n int, f func()) {
	for i := 0; i < n; i++ {
		if i > 0 {
			g.put(",")
		}
		f()
	}
}
func (g *luaGen) exp(d int) {
	n := 0
	for g.r.Intn(4) == 0 && n < 2 {
		g.put(g.of("-", "not", "#", "~"))
		n++
	}
	g.simple(d)
	if g.r.Intn(3) == 0 {
		g.put(g.of("..", "<<", "<=", "<", ">>", ">=", ">", "==", "~=", "and", "or", "+", "-", "*", "//", "/", "^", "%", "&", "~", "|"))
		g.exp(d - 1)
	}
}
func (g *luaGen) simple(d int) {
	k := g.r.Intn(12)
	if d <= 0 {
		k = g.r.Intn(5)
	}
	switch k {
	case 0:
		g.put(g.of("nil", "true", "false", "..."))
	case 1:
		g.put(g.num())
	case 2:
		g.put(g.str())
	case 3, 4:
		g.put(g.name())
	case 5:
		g.put("function")
		g.body(d - 1)
	case 6, 7:
		g.table(d - 1)
	case 8:
		g.put("(")
		g.exp(d - 1)
		g.put(")")
	default:
		g.prefix(d-1, g.r.Intn(3))
	}
}
func (g *luaGen) table(d int) {
	g.put("{")
	for n := g.r.Intn(3); n > 0; n-- {
		switch g.r.Intn(3) {
		case 0:
			g.put("[")
			g.exp(d)
			g.put("]", "=")
			g.exp(d)
		case 1:
			g.put(g.name(), "=")
			g.exp(d)
		case 2:
			g.exp(d)
		}
		if n > 1 || g.r.Intn(2) == 0 {
			g.put(g.of(",", ";"))
		}
	}
	g.put("}")
}

// prefix: kind 0 a variable, 1 a call, 2 either
func (g *luaGen) prefix(d, kind int) {
	if g.r.Intn(4) == 0 {
		g.put("(")
		g.exp(d)
		g.put(")")
		if kind == 0 {
			g.index(d)
		}
	} else {
		g.put(g.name())
	}
	for n := g.r.Intn(3); n > 0; n-- {
		if g.r.Intn(2) == 0 {
			g.index(d)
		} else {
			g.call(d)
		}
	}
	if kind == 0 {
		if g.r.Intn(2) == 0 {
			g.index(d)
		} else if last := g.l[len(g.l)-1]; last == ")" || last == "}" || strings.ContainsAny(last[len(last)-1:], `"']`) {
			g.index(d)
		}
	} else if kind == 1 {
		g.call(d)
	}
}
func (g *luaGen) index(d int) {
	if g.r.Intn(2) == 0 {
		g.put(".", g.name())
	} else {
		g.put("[")
		g.exp(d)
		g.put("]")
	}
}
func (g *luaGen) call(d int) {
	if g.r.Intn(3) == 0 {
		g.put(":", g.name())
	}
	switch g.r.Intn(6) {
	case 0:
		g.put(g.str())
	case 1:
		g.table(d - 1)
	default:
		g.put("(")
		g.list(g.r.Intn(3), func() { g.exp(d - 1) })
		g.put(")")
	}
}
func (g *luaGen) body(d int) {
	g.put("(")
	n := g.r.Intn(3)
	g.list(n, func() { g.put(g.name()) })
	if g.r.Intn(3) == 0 {
		if n > 0 {
			g.put(",")
		}
		g.put("...")
	}
	g.put(")")
	g.block(d)
	g.put("end")
}
func (g *luaGen) block(d int) {
	n := g.r.Intn(3)
	if d <= 0 {
		n = g.r.Intn(2)
	}
	for ; n > 0; n-- {
		g.stat(d)
	}
	if g.r.Intn(4) == 0 {
		g.put("return")
		g.list(g.r.Intn(3), func() { g.exp(d - 1) })
		if g.r.Intn(2) == 0 {
			g.put(";")
		}
	}
}
func (g *luaGen) stat(d int) {
	k := g.r.Intn(16)
	if d <= 0 {
		k = g.r.Intn(8)
	}
	switch k {
	case 0:
		g.put(";")
	case 1, 2:
		g.list(1+g.r.Intn(2), func() { g.prefix(d-1, 0) })
		g.put("=")
		g.list(1+g.r.Intn(2), func() { g.exp(d - 1) })
	case 3:
		g.prefix(d-1, 1)
	case 4:
		g.put("::", g.name(), "::")
	case 5:
		g.put("break")
	case 6:
		g.put("goto", g.name())
	case 7:
		g.put("local")
		g.list(1+g.r.Intn(2), func() {
			g.put(g.name())
			if g.r.Intn(4) == 0 {
				g.put("<", g.of("const", "close"), ">")
			}
		})
		if g.r.Intn(2) == 0 {
			g.put("=")
			g.list(1+g.r.Intn(2), func() { g.exp(d - 1) })
		}
	case 8:
		g.put("do")
		g.block(d - 1)
		g.put("end")
	case 9:
		g.put("while")
		g.exp(d - 1)
		g.put("do")
		g.block(d - 1)
		g.put("end")
	case 10:
		g.put("repeat")
		g.block(d - 1)
		g.put("until")
		g.exp(d - 1)
	case 11:
		g.put("if")
		g.exp(d - 1)
		g.put("then")
		g.block(d - 1)
		for n := g.r.Intn(2); n > 0; n-- {
			g.put("elseif")
			g.exp(d - 1)
			g.put("then")
			g.block(d - 1)
		}
		if g.r.Intn(2) == 0 {
			g.put("else")
			g.block(d - 1)
		}
		g.put("end")
	case 12:
		g.put("for", g.name(), "=")
		g.list(2+g.r.Intn(2), func() { g.exp(d - 1) })
		g.put("do")
		g.block(d - 1)
		g.put("end")
	case 13:
		g.put("for")
		g.list(1+g.r.Intn(2), func() { g.put(g.name()) })
		g.put("in")
		g.list(1+g.r.Intn(2), func() { g.exp(d - 1) })
		g.put("do")
		g.block(d - 1)
		g.put("end")
	case 14:
		g.put("function", g.name())
		for n := g.r.Intn(3); n > 0; n-- {
			g.put(".", g.name())
		}
		if g.r.Intn(3) == 0 {
			g.put(":", g.name())
		}
		g.body(d - 1)
	case 15:
		g.put("local", "function", g.name())
		g.body(d - 1)
	}
}

func wordly(b byte) bool {
	return b == '_' || '0' <= b && b <= '9' || 'a' <= b && b <= 'z' || 'A' <= b && b <= 'Z'
}

func digit(b byte) bool { return '0' <= b && b <= '9' }

// mutate changes some symbols.
func (g *luaGen) mutate() {
	pool := []string{"end", "do", "then", "else", "=", ",", ";", ".", ":", "(", ")", "[", "]", "{", "}", "..", "...", "-", "not", "and",
		"return", "local", "function", "in", "for", "if", "break", "::", "a", "b", "1", "\"s\"", "<", ">", "until", "repeat", "goto", "elseif", "--", "@"}
	for n := 1 + g.r.Intn(2); n > 0 && len(g.l) > 0; n-- {
		i := g.r.Intn(len(g.l))
		x := pool[g.r.Intn(len(pool))]
		switch g.r.Intn(5) {
		case 0:
			g.l = append(append(append([]string{}, g.l[:i]...), x), g.l[i:]...)
		case 1:
			g.l = append(append([]string{}, g.l[:i]...), g.l[i+1:]...)
		case 2:
			g.l[i] = x
		case 3:
			j := g.r.Intn(len(g.l))
			g.l[i], g.l[j] = g.l[j], g.l[i]
		case 4:
			g.l = append([]string{}, g.l[:i]...)
		}
	}
}

// layout joins the symbols: 0 with single spaces, 1 with random whitespace,
// 2 with as little as possible, 3 with comments too.
func (g *luaGen) layout(mode int) string {
	b := &strings.Builder{}
	last := byte(' ')
	for i, s := range g.l {
		if i > 0 {
			must := wordly(last) && wordly(s[0]) || strings.IndexByte("-.=<>~:/[", last) >= 0 && strings.IndexByte("-.=<>~:/[", s[0]) >= 0 ||
				digit(last) && s[0] == '.' || last == '.' && digit(s[0])
			switch {
			case mode == 0 || mode == 2 && must:
				b.WriteString(" ")
			case mode == 2:
			default:
				b.WriteString(g.of(" ", "  ", "\n", "\t", "\r\n", " \n\t"))
				if mode == 3 && g.r.Intn(4) == 0 {
					b.WriteString(g.of("-- c\n", "--[[ c ]]", "--[=[ ]] ]=]", "--\n", "--[x\n", "--[[\n]] "))
				}
			}
		}
		b.WriteString(s)
		last = s[len(s)-1]
	}
	return b.String()
}
