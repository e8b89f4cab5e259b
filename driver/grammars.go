package main

import (
	"math/rand"
	"strings"

	"github.com/aiq/tok"
	"github.com/aiq/tok/grammar"
)

// docRun is a text read with one of the bundled grammars.
type docRun struct {
	T     []int           `json:"t"`
	Part  string          `json:"part"` // which reader of the grammar
	OK    int             `json:"ok"`   // 2 is a panic
	P     int             `json:"p"`
	PK    [][]interface{} `json:"pk"` // picked segments
	Names [][]int         `json:"names"`
	Conts [][]int         `json:"conts"`
	Want  [][][]int       `json:"want"` // MXT: name and content of the chunks it was written from
}

type docRow struct {
	Kind string   `json:"kind"` // json, mxt, lua
	One  int      `json:"one"`  // one reader for all texts
	Runs []docRun `json:"runs"`
}

const pickMax = 2000

func (r *docRow) run() {
	var js *grammar.JSONReader
	var mx *grammar.MXTReader
	var lu *grammar.LuaReader
	var sca *tok.Scanner
	var names, conts *[][]int
	newMxt := func() {
		mx = grammar.MXT()
		mx.Name.Map(func(t tok.Token) { *names = append(*names, bytesOf(sca.Get(t))) })
		mx.EmptyContent.Map(func(t tok.Token) { *conts = append(*conts, []int{}) })
		mx.Content.Map(func(t tok.Token) { *conts = append(*conts, bytesOf(sca.Get(t))) })
	}
	parts := map[string]tok.Reader{}
	for i := range r.Runs {
		tick()
		run := &r.Runs[i]
		run.PK, run.Names, run.Conts = [][]interface{}{}, [][]int{}, [][]int{}
		if run.Want == nil {
			run.Want = [][][]int{}
		}
		names, conts = &run.Names, &run.Conts
		sca = tok.NewScanner(strOf(run.T))
		var basket *tok.Basket
		run.OK = 2
		guard(func() {
			var rd tok.Reader
			switch r.Kind {
			case "json":
				if js == nil || r.One == 0 {
					js = grammar.JSON()
					if run.Part == "picks" {
						basket = sca.NewBasketFor(js)
					}
				}
				rd = js
			case "mxt":
				if mx == nil || r.One == 0 {
					newMxt()
				}
				rd = mx
			case "lua":
				if lu == nil || r.One == 0 {
					lu = grammar.Lua()
					parts = map[string]tok.Reader{}
					if run.Part == "picks" || run.Part == "script" {
						basket = sca.NewBasketFor(lu)
					}
				}
				rd = lu
				switch run.Part {
				case "script":
					rd = &lu.Script
				case "name":
					rd = &lu.Name
				}
			}
			switch run.Part {
			case "string", "numeral", "comment":
				if parts[run.Part] == nil {
					switch run.Part {
					case "string":
						parts[run.Part] = grammar.LuaString()
					case "numeral":
						parts[run.Part] = grammar.LuaNumeral()
					case "comment":
						parts[run.Part] = grammar.LuaComment()
					}
				}
				rd = parts[run.Part]
			}
			run.OK = b2i(sca.Use(rd) == nil)
		})
		run.P = int(sca.Mark())
		if basket != nil && run.OK == 1 {
			for _, s := range basket.Picked() {
				if len(run.PK) == pickMax {
					break
				}
				a, b := ends(s.Token)
				if a != b {
					run.PK = append(run.PK, []interface{}{s.Info, a, b})
				}
			}
		}
	}
}

// ---------------------------------------------------------------------- JSON
func jsonValue(r *rand.Rand, depth int) string {
	ws := func() string {
		return []string{"", "", "", " ", "\n", "\t", "\r\n", "  "}[r.Intn(8)]
	}
	str := func() string {
		s := "\""
		for n := r.Intn(4); n > 0; n-- {
			s += []string{"a", "B", " ", "\u00e4", "\u4e16", "\U0001F600", "\\n", "\\\"", "\\\\", "\\/", "\\u00e4", "\\uD83d", "\x7f", "\xff", "\xe4\xb8", "/", "{", ",", "\\b", "\\f", "\\r", "\\t", "\\u0000", "'"}[r.Intn(24)]
		}
		return s + "\""
	}
	num := func() string {
		s := []string{"", "", "-"}[r.Intn(3)]
		s += []string{"0", "1", "9", "10", "42", "907"}[r.Intn(6)]
		s += []string{"", "", ".0", ".5", ".025"}[r.Intn(5)]
		s += []string{"", "", "e1", "E+10", "e-0", "E07"}[r.Intn(6)]
		return s
	}
	if depth <= 0 {
		return []string{"true", "false", "null", num(), num(), str(), str()}[r.Intn(7)]
	}
	n := r.Intn(4)
	switch r.Intn(5) {
	case 0, 1:
		l := []string{}
		for ; n > 0; n-- {
			l = append(l, ws()+jsonValue(r, depth-1)+ws())
		}
		if len(l) == 0 {
			return "[" + ws() + "]"
		}
		return "[" + strings.Join(l, ",") + "]"
	case 2, 3:
		l := []string{}
		for ; n > 0; n-- {
			l = append(l, ws()+str()+ws()+":"+ws()+jsonValue(r, depth-1)+ws())
		}
		if len(l) == 0 {
			return "{" + ws() + "}"
		}
		return "{" + strings.Join(l, ",") + "}"
	}
	return jsonValue(r, 0)
}

var luaWords = []string{"", "a", "_", "x1", "and", "break", "do", "elseif", "else", "end", "false", "for", "function", "goto", "if", "in", "local",
	"nil", "not", "or", "repeat", "return", "then", "true", "until", "while"}

// points lists the code points at the ends of the classes a reader may tell
// apart, each alone, and then groups of others.
func points(c *ctx, group int) []string {
	l := []string{}
	for _, p := range []rune{0, 9, 0x1f, 0x20, 0x21, 0x22, 0x23, 0x2f, 0x5b, 0x5c, 0x5d, 0x7e, 0x7f, 0x80, 0x81, 0x85, 0x9f, 0xa0, 0xa1, 0xaa, 0xad, 0xb5, 0xc0, 0xdf,
		0xff, 0x100, 0x130, 0x131, 0x17f, 0x2b0, 0x300, 0x37e, 0x3a3, 0x5d0, 0x660, 0x7ff, 0x800, 0xfff, 0x1000, 0x1680, 0x2000, 0x200b, 0x200d, 0x2028, 0x2029, 0x202e, 0x212a,
		0x3000, 0x4e00, 0xd7ff, 0xe000, 0xf8ff, 0xfdd0, 0xfe0f, 0xfeff, 0xff10, 0xff21, 0xfffc, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x10001, 0x1f600, 0x1ffff, 0x20000,
		0xe0001, 0xeffff, 0xf0000, 0xfffff, 0x100000, 0x10ff7f, 0x10ff80, 0x10fffd, 0x10fffe, 0x10ffff} {
		l = append(l, string(p))
	}
	if c.n(0, 1) == 1 { // all code points
		s, n := "", 0
		for p := rune(0xa1); p <= 0x10ffff; p++ {
			if 0xd800 <= p && p < 0xe000 {
				continue
			}
			s += string(p)
			if n++; n == group {
				l = append(l, s)
				s, n = "", 0
			}
		}
		return append(l, s)
	}
	for i := 0; i < 60; i++ {
		s := ""
		for k := 0; k < group; k++ {
			p := rune(0xa1 + c.rnd.Intn(0x110000-0xa1))
			if k%2 == 0 {
				p = rune(0xa1 + c.rnd.Intn(0x3000))
			}
			s += string(p)
		}
		l = append(l, s)
	}
	return l
}

// changes puts every byte into, and in place of what is at, every position of
// the documents (most of them, if there are many).
func changes(c *ctx, most int, put func(string), docs ...string) {
	total := 0
	for _, d := range docs {
		total += 512 * (len(d) + 1)
	}
	for _, d := range docs {
		for i := 0; i <= len(d); i++ {
			for b := 0; b < 512; b++ {
				if total > most && c.rnd.Intn(total) >= most {
					continue
				}
				x := string([]byte{byte(b)})
				if b < 256 {
					put(d[:i] + x + d[i:])
				} else if i < len(d) {
					put(d[:i] + x + d[i+1:])
				}
			}
		}
	}
}

// repeats takes out, doubles and triples every part of up to most symbols of
// the documents, whose symbols are separated by spaces, and swaps neighbours.
func repeats(most int, put func(string), docs ...string) {
	for _, d := range docs {
		l := strings.Split(d, " ")
		join := func(ll ...[]string) {
			all := []string{}
			for _, x := range ll {
				all = append(all, x...)
			}
			put(strings.Join(all, " "))
		}
		for i := range l {
			for n := 1; n <= most && i+n <= len(l); n++ {
				x := l[i : i+n]
				join(l[:i], l[i+n:])
				join(l[:i+n], x, l[i+n:])
				join(l[:i+n], x, x, l[i+n:])
				if i+2*n <= len(l) {
					join(l[:i], l[i+n:i+2*n], x, l[i+2*n:])
				}
			}
		}
	}
}

func breakText(r *rand.Rand, s string, pool []string) string {
	for n := 1 + r.Intn(2); n > 0; n-- {
		i := r.Intn(len(s) + 1)
		x := pool[r.Intn(len(pool))]
		switch r.Intn(6) {
		case 0, 1:
			s = s[:i] + x + s[i:]
		case 2:
			if i < len(s) {
				s = s[:i] + s[i+1:]
			}
		case 3:
			s = s[:i]
		case 4:
			if i < len(s) {
				s = s[:i] + x + s[i+1:]
			}
		case 5:
			j := i + r.Intn(len(s)+1-i)
			s = s[:i] + s[i:j] + s[i:]
		}
	}
	return s
}

var jsonCells = []string{"{", "}", "[", "]", ",", ":", "\"", "\\", "0", "1", "-", ".", "e", "+", " ", "a", "true", "false", "null", "\n", "\x01", "\xff", "u00", "\t"}

// ----------------------------------------------------------------------- MXT
type mxtChunk struct {
	name, salt string
	comment    []string
	lines      []string
}

func mxtDoc(r *rand.Rand) (string, [][][]int) {
	nl := []string{"\n", "\n", "\r\n"}[r.Intn(3)]
	word := func(l ...string) string { return l[r.Intn(len(l))] }
	sp := func() string { return strings.Repeat(" ", 1+r.Intn(2)) }
	doc, want := "", [][][]int{}
	mark := ""
	for i, n := 0, 1+r.Intn(4); i < n; i++ {
		name := word("a", "b.c", "x--", "-->", "//n", "\u03a3-el", "user.json", "\xff", "n-->m", "-", "//")
		salt := word("", "", "", "X", "XY", "//", "-", "-->", "\u00e4", "X-")
		s := "//" + mark + word("", "", "---", "+", "X") + sp() + name
		if r.Intn(3) == 0 {
			s += nl
			for k := r.Intn(3); k > 0; k-- {
				s += "//" + word("", " text", " -> not yet --", "\tx", "X words here") + nl
			}
			s += "//"
		} else {
			s += sp() + word("", "", "words of comment ", "- > ", "\t")
		}
		s += word("", "", "----", "*") + "-->"
		if salt != "" {
			s += sp() + salt + word("", "", " ", "  ")
		} else {
			s += word("", "", "", " ", "   ")
		}
		lines := []string{}
		for k := r.Intn(4); k > 0; k-- {
			l := word("", "text", "//", "// x -->", "//X", "//XY h -->", " //", "/", "a // b", "//Z c --> q", "\xff\xfe", "-->", "\u4e16", "//-", "//\u00e4", "////")
			if !strings.HasPrefix(l, "//"+salt) {
				lines = append(lines, l)
			}
		}
		content := ""
		if len(lines) > 0 {
			content = strings.Join(lines, nl)
			s += nl + content
		}
		if i > 0 {
			doc += nl
		}
		doc += s
		want = append(want, [][]int{bytesOf(name), bytesOf(content)})
		mark = salt
	}
	return doc, want
}

var mxtCells = []string{"/", "//", "-->", " ", "\n", "\r\n", "a", "X", "-", "\t", "\r"}

var luaCells = []string{"a", "=", "1", "(", ")", "{", "}", "[", "]", ",", ";", ":", "::", ".", "..", "...", "-", "--", "--[[", "]]", "'", "\"", "\\", " ", "\n", "do ", " end ", "function ", "return ", "if ", " then ", "not ", "local ", "<", "#", "#!", "0x", "e"}

// ------------------------------------------------------------ long documents
// longJSON puts documents with long strings, numbers, gaps, many elements and
// deep nesting, each also broken at the end of the long part.
func longJSON(c *ctx, put func(string)) {
	rep := strings.Repeat
	for _, n := range []int{18, 40, 70, 140, 300, c.n(600, 1100)} {
		odd := []string{"\\n", "\\u00e4", "\u00e4", "\U0001F600", "\\\"", "\x7f", "/"}
		for i, x := range odd {
			if n > 300 && i > 2 {
				break
			}
			put("\"" + rep("a", n) + x + "\"")
			put("[\"" + rep(x, n) + "\",\"" + rep("a", n) + "\"]")
		}
		for _, x := range []string{"\x1f", "\n", "\\x", "\\u12g4", "\\", "\xff", "\x00"} {
			put("\"" + rep("a", n) + x + "\"")
			put("\"" + rep("\u00e4", n) + x + "a\"")
		}
		put("\"" + rep("a", n))
		put("[\"" + rep("a", n) + "\", x]")
		for _, x := range []string{"1" + rep("0", n), "-" + rep("9", n), "0." + rep("0", n), "1." + rep("7", n) + "e" + rep("1", n), "1e-" + rep("0", n), "0" + rep("0", n), "1." + rep("7", n) + ".", "1e" + rep("1", n) + "e", "1" + rep("0", n) + "x"} {
			put(x)
			put("[" + x + "]")
		}
		for _, w := range []string{" ", "\n", "\t", "\r\n", " \t", "\v", "\u00a0"} {
			put(rep(w, n) + "1")
			put("[" + rep(w, n) + "]" + rep(w, n))
			put("{" + rep(w, n) + "\"a\"" + rep(w, n) + ":" + rep(w, n) + "1" + rep(w, n) + "," + rep(w, n) + "\"b\":2" + rep(w, n) + "}")
		}
		for _, e := range []string{"1", "\"\"", "[]", "{}", "true", "\"a\":1", "\"a\" : [ ]"} {
			open, end := "[", "]"
			if len(e) > 5 {
				open, end = "{", "}"
			}
			l := open + rep(e+",", n)
			put(l + e + end)
			put(l + end)
			put(l + e)
			put(l + "," + e + end)
			put(l + e + " " + e + end)
			put(open + rep(e+" , ", n) + e + " " + end)
		}
		if n <= 140 { // nested
			for _, x := range [][2]string{{"[", "]"}, {"{\"a\":", "}"}, {"[ ", " ]"}, {"[1,", ",2]"}, {"[{\"a\":", "}]"}} {
				l, r := rep(x[0], n), rep(x[1], n)
				put(l + "1" + r)
				put(l + "null" + rep(x[1], n-1))
				put(l + "1" + r + x[1])
				put(l + r)
				put(rep(x[0], n/2) + l[:n/2] + "0" + r)
			}
			put(rep("[", n) + rep("]", n))
			put(rep("[", n) + rep("]", n-1) + "}")
		}
	}
}

// longMXT puts documents with long salts, names, comments, contents and many chunks.
func longMXT(c *ctx, put func(string, [][][]int)) {
	rep := strings.Repeat
	one := func(n, t string) [][][]int { return [][][]int{{bytesOf(n), bytesOf(t)}} }
	for _, n := range []int{18, 40, 70, 140, 300, 1100, c.n(1100, 2100)} {
		a, salt := rep("a", n), rep("S", n)
		name := rep("n m", n/3) + "n"
		put("// "+a+" -->\ntext", nil)
		put("// "+rep("\u00e4", n)+" -->\ntext", one(rep("\u00e4", n), "text"))
		put("// "+name+" -->\ntext", nil)
		put("//"+rep(" ", n)+"x"+rep(" ", n)+"-->"+rep(" ", n)+"\ntext", nil)
		put("//"+rep("\t", n)+"x"+rep("\t", n)+"-->"+rep("\t", n)+"\n", nil)
		put("// x --> "+salt+"\n//\n"+rep("y", n)+"\n//"+salt+" z -->\nt", nil)
		put("// x --> "+salt+"\n//"+salt[1:]+"\n//"+salt[1:]+"T z -->\nt", nil)
		put("// x --> "+salt+"\n//"+salt+"S z -->\nt", nil)
		put("// x --> "+salt[1:]+"\u00e4\n//"+salt+"\n//"+salt[1:]+"\u00e4 z --> c\nt", nil)
		put("// x --> "+salt+" \n//"+salt[:n/2]+"\n//"+salt, nil)
		put("// x --> "+rep(" ", n)+"S\n//S z -->\nt", nil)
		put("//"+salt+" x -->\n//"+salt+" z -->\nt", nil)
		put("// x --> "+rep("c ", n)+"\n"+rep("line\n", n), nil)
		put("// x -->\n"+a, nil)
		put("// x -->\n"+rep("\n", n), nil)
		put("// x -->\n"+rep("/", n), nil)
		put("// x -->\n"+rep(" //\n", n), nil)
		put("// x -->\n"+rep("a//\n", n)+"// y -->\n", nil)
		put("//S x -->\n"+rep("// -->\n", n)+"//S y -->\n", nil)
		put("// "+rep("-", n)+" -->\nt", nil)
		put("// "+rep("--", n)+"> -->\nt", nil)
		put("// "+rep("a", n)+"-->\nt", nil)
		put("// "+a, nil)
		put("//"+salt, nil)
		put("// x\n"+rep("a\n", n), nil)
		put("// x -->\r\n"+rep("a\r\n", n)+"// y -->\r\n", nil)
		if n <= 300 { // many chunks
			s := ""
			for i := 0; i < n; i++ {
				x := rep("k", i%7+1)
				s += "// " + x + " -->\n" + x + "\n"
			}
			put(s, nil)
			put("//S a -->\n"+rep("//S b --> c\nt\n", n), nil)
			put("// a -->\n"+rep("// b -->\n", n)+"// c", nil)
			put("// a -->\n"+rep("// b -->\n", n)+"//-->", nil)
		}
	}
}

// longLua puts programs with long literals, names, lists, blocks and chains.
func longLua(c *ctx, put func(part, s string)) {
	rep := strings.Repeat
	for _, n := range []int{18, 40, 70, 140, 300, c.n(600, 1100)} {
		a := rep("a", n)
		for _, x := range []string{"1" + rep("0", n), "0x" + rep("f", n), "1." + rep("3", n), "." + rep("3", n) + "e" + rep("1", n), "0x." + rep("F", n) + "p-" + rep("2", n), "0x" + rep("0", n) + "g", "1e+" + rep("0", n) + "e", "1e" + rep("+", n)} {
			put("numeral", x)
		}
		for _, q := range []string{"\"", "'"} {
			for _, x := range []string{"a", "\u00e4", "\\n", "\\065", "\\x4F", "\\u{2A}", "\\\n", "\\z \n", "\xff"} {
				put("string", q+rep(x, n)+q)
				put("string", q+rep(x, n)+"\n"+q)
				put("string", q+rep("a", n)+x+q+"b")
				put("string", q+rep(x, n))
			}
			put("string", q+a+"\\q"+q)
			put("string", q+a+"\\x4"+q)
			put("string", q+"\\z"+rep(" ", n)+"\n"+rep("\t", n)+"a"+q)
			put("string", q+"\\u{"+rep("0", n)+"}"+q)
			put("string", q+"\\u{"+rep("0", n)+"g}"+q)
		}
		e := rep("=", n)
		for _, pre := range []string{"", "--"} {
			part := "string"
			if pre != "" {
				part = "comment"
			}
			put(part, pre+"["+e+"[a]"+e[1:]+"]"+e+"=]b]"+e+"]c")
			put(part, pre+"["+e+"["+rep("]"+e, 3)+"]")
			put(part, pre+"["+e+"["+a+"]"+e[1:]+"]")
			put(part, pre+"["+e+"a")
			put(part, pre+"[["+rep("]=", n)+"]]x")
			put(part, pre+"[=["+rep("]]", n)+"]=]x")
			put(part, pre+"[["+rep("a\n", n)+"]]x")
			put(part, pre+"[["+rep("\u4e16", n)+"]]x")
		}
		put("comment", "--"+a+"\nb")
		put("comment", "--"+rep("\u00e4", n))
		put("comment", "--"+rep("-", n)+"\r\n")
		put("comment", "-- "+rep("[[", n)+"\n]]")
		for _, x := range []string{a, rep("_", n), "end" + a, a + "end", "x" + rep("9", n), rep("end", n), a + "\u00e4", rep("9", n)} {
			put("name", x)
			put("name", x+" ")
			put("", x+"=1")
			put("", "f{"+x+"=1}")
			put("", "goto "+x)
		}
		put("", "a="+rep(" ", n)+"1"+rep("\n", n))
		put("", rep("\n", n)+"a=1")
		put("", rep("--\n", n)+"a=1")
		put("", rep("--[[x]]", n)+"a=1 "+rep("--[=[]]]=] ", n))
		put("script", "#!"+a+"\na=1")
		put("script", "#!"+rep("\u00e4 ", n)+"\r\na=1")
		put("script", "#!"+a)
		put("", rep(";", n))
		put("", rep(";", n)+"x")
		put("", rep("a=1 ", n))
		put("", rep("a=1;", n)+"b")
		put("", rep("f() ", n))
		put("", rep("f()", n)+"=1")
		put("", rep("do end ", n))
		put("", rep("do end ", n)+"end")
		put("", rep("::a::", n))
		put("", rep("break ", n))
		put("", rep("break ", n)+"return 1 return")
		put("", "return "+rep("1,", n)+"2")
		put("", "return "+rep("1,", n))
		put("", "do "+rep("a=1\n", n)+"end")
		put("", "while a do "+rep("f{} ", n))
		put("", rep("a,", n)+"a = 1")
		put("", "a = "+rep("1,", n)+"1")
		put("", "a = "+rep("1,", n))
		put("", rep("a,", n)+"f() = 1")
		put("", "local "+rep("a,", n)+"a")
		put("", "local "+rep("a <const>,", n)+"b=1")
		put("", "local "+rep("a,", n)+"1")
		put("", "for "+rep("a,", n)+"b in c do end")
		put("", "for a in "+rep("b,", n)+"c do end")
		put("", "function f("+rep("a,", n)+"...) end")
		put("", "function f("+rep("a,", n)+") end")
		put("", "function a"+rep(".b", n)+":c() end")
		put("", "function a"+rep(".b", n)+":c:d() end")
		put("", "f("+rep("1,", n)+"2)")
		put("", "f("+rep("1,", n)+")")
		put("", "a={"+rep("1,", n)+"}")
		put("", "a={"+rep("b=1;", n)+"2}")
		put("", "a={"+rep("[1]=1,", n)+";}")
		put("", "a={"+rep("1 ", n)+"}")
		put("", "a"+rep(".b", n)+"=1")
		put("", "a"+rep("[1]", n)+"=1")
		put("", "a"+rep(".b", n))
		put("", "f"+rep("()", n))
		put("", "f"+rep("{}", n))
		put("", "f"+rep("''", n)+".x=1")
		put("", "f"+rep(":m()", n))
		put("", "f"+rep(":m()", n)+":m")
		for _, o := range []string{"+", "..", " and ", " or ", "//", "<", "^", "==", "&", "-"} {
			put("", "a="+rep("1 "+o+" ", n)+"1")
			put("", "a="+rep("1 "+o+" ", n))
		}
		for _, o := range []string{"- ", "not ", "#", "~"} {
			if n > 140 {
				break
			}
			put("", "a="+rep(o, n)+"1")
			put("", "a="+rep(o, n))
		}
		put("", "if a then"+rep(" elseif b then", n)+" else end")
		put("", "if a then"+rep(" elseif b then", n)+" else elseif c then end")
		if n <= 70 {
			for _, x := range [][2]string{{"do ", " end"}, {"while a do ", " end"}, {"if a then ", " end"}, {"repeat ", " until a"}, {"function f() ", " end"}, {"for i=1,2 do ", " end"}, {"local function f() ", " end"}} {
				put("", rep(x[0], n)+rep(x[1], n))
				put("", rep(x[0], n)+"a=1"+rep(x[1], n-1))
				put("", rep(x[0], n)+"a=1"+rep(x[1], n)+x[1])
			}
		}
	}
}

func init() {
	for _, k := range []string{"json", "mxt", "lua"} {
		k := k
		kinds[k] = func() row { return &docRow{Kind: k} }
	}
	batch := func(c *ctx, kind string, one int) (func(docRun), func()) {
		row := &docRow{Kind: kind, One: one}
		flush := func() {
			if len(row.Runs) > 0 {
				c.emit(row)
				row = &docRow{Kind: kind, One: one}
			}
		}
		return func(r docRun) {
			row.Runs = append(row.Runs, r)
			if len(row.Runs) == 40 || len(r.T) > 200 {
				flush()
			}
		}, flush
	}
	suites["C13grammar"] = func(c *ctx) {
		wild := []string{"\xff", "\x80", "\xc3", "\xe4\xb8", "\u00e4", "\u4e16", "\U0001F600", "\x00", "\ufffd", "\r", "\v", "\u2028"}
		for _, l := range [][]string{jsonCells, mxtCells, luaCells} {
			wild = append(wild, l...)
		}
		type target struct {
			kind, part string
			cells      []string
			doc        func() string
		}
		lua := func() string {
			g := &luaGen{r: c.rnd}
			for n := 1 + c.rnd.Intn(2); n > 0; n-- {
				g.stat(c.rnd.Intn(3))
			}
			if len(g.l) > 40 {
				g.l = g.l[:40]
			}
			return g.layout(c.rnd.Intn(4))
		}
		for _, t := range []target{
			{"json", "", jsonCells, func() string { return jsonValue(c.rnd, 3) }},
			{"mxt", "", mxtCells, func() string { s, _ := mxtDoc(c.rnd); return s }},
			{"lua", "", luaCells, lua},
			{"lua", "script", luaCells, func() string { return "#!lua\n" + lua() }},
			{"lua", "string", luaCells, func() string { return "[==[" + lua() + "]==]" }},
			{"lua", "numeral", luaCells, func() string { return "0x1f.ap-10" }},
			{"lua", "comment", luaCells, func() string { return "--[=[" + lua() + "]=]" }},
		} {
			put, flush := batch(c, t.kind, 1)
			add := func(s string) { put(docRun{T: bytesOf(s), Part: t.part}) }
			for _, s := range allTexts(t.cells, c.n(2, 3)) {
				add(s)
			}
			for i := c.n(700, 10000); i > 0; i-- {
				s := ""
				for n := 1 + c.rnd.Intn(12); n > 0; n-- {
					l := t.cells
					if c.rnd.Intn(4) == 0 {
						l = wild
					}
					s += l[c.rnd.Intn(len(l))]
				}
				add(s)
			}
			for i := c.n(40, 600); i > 0; i-- {
				s := t.doc()
				if len(s) > 100 {
					s = s[:100]
				}
				for k := 0; k <= len(s); k += 1 + len(s)/50 { // texts that end early
					add(s[:k])
					add(s[:k] + wild[c.rnd.Intn(len(wild))] + s[k:])
				}
			}
			nest := [][2]string{{"[", "]"}, {"{", "}"}, {"{\"a\":", "}"}, {"(", ")"}, {"a=f(", ")"}, {"a=(", ")"}, {"a={", "}"},
				{"do ", " end"}, {"if a then ", " end"}, {"function f() ", " end"}, {"a=function() return ", " end"}, {"a[", "]"}, {"a.b(", ")"},
				{"- ", ""}, {"not ", ""}, {"// a --> X\n", ""}, {"[[", "]]"}, {"--[[", "]]"}, {"\"\\", "\""}, {"a:b", ""}, {"f{", "}"}, {"a=a+", ""}, {"a..", ""}}
			for _, x := range nest {
				for _, n := range []int{1, 2, 3, 5, c.n(7, 9)} {
					for _, mid := range []string{"", "1", "\""} {
						add(strings.Repeat(x[0], n) + mid + strings.Repeat(x[1], n))
						add(strings.Repeat(x[0], n) + mid + strings.Repeat(x[1], n-1))
						// the start of an assignment only once
						b := strings.TrimPrefix(x[0], "a=")
						add("a=" + strings.Repeat(b, n) + mid + strings.Repeat(x[1], n))
						add("a=" + strings.Repeat(b, n) + mid + strings.Repeat(x[1], n-1))
					}
				}
			}
			if t.kind == "json" { // deep documents
				for _, n := range []int{100, c.n(1000, 5000)} {
					add(strings.Repeat("[", n) + strings.Repeat("]", n))
					add(strings.Repeat("{\"a\":[", n))
				}
			}
			if t.kind == "lua" && t.part == "" {
				for _, x := range []string{"(", "f(", "{(", "f{a("} {
					y := strings.NewReplacer("(", ")", "{", "}", "f", "", "a", "").Replace(x)
					if len(y) == 2 {
						y = y[1:] + y[:1]
					}
					for _, n := range []int{8, 10} {
						add("a=" + strings.Repeat(x, n/len(y)) + strings.Repeat(y, n/len(y)))
						add("a=" + strings.Repeat(x, n/len(y)) + "1" + strings.Repeat(y, n/len(y)))
					}
				}
			}
			flush()
		}
	}
	suites["C25"] = func(c *ctx) {
		put, flush := batch(c, "json", 1)
		for _, s := range allTexts(jsonCells, 3) {
			put(docRun{T: bytesOf(s)})
		}
		for i := 0; i < c.n(2000, 80000); i++ {
			s := ""
			for n := 4 + i%3; n > 0; n-- {
				s += jsonCells[c.rnd.Intn(len(jsonCells))]
			}
			put(docRun{T: bytesOf(s)})
		}
		small := []string{"[", "]", "{", "}", ",", ":", "\"\"", "1", " "}
		for _, s := range allTexts(small, c.n(4, 5)) {
			put(docRun{T: bytesOf(s)})
		}
		for _, s := range allTexts([]string{"0", "1", "-", ".", "e", "+"}, c.n(5, 6)) {
			put(docRun{T: bytesOf(s)})
		}
		for _, s := range points(c, 40) {
			put(docRun{T: bytesOf("\"" + s + "\"")})
		}
		repeats(5, func(s string) { put(docRun{T: bytesOf(s)}) }, "{ \"a\" : [ 1 , { } , null ] , \"b\" : { \"c\" : true , \"a\" : -1 } }", "[ [ ] , 0 , [ { \"\" : \"\" } ] , false ]")
		repeats(3, func(s string) { put(docRun{T: bytesOf(strings.ReplaceAll(s, " ", ""))}) }, "- 1 0 . 0 5 e + 0 7", "\" \\ u 0 0 a F \\ n \\ \" \\ \\ \"", "t r u e", "n u l l", "f a l s e")
		changes(c, c.n(20000, 100000), func(s string) { put(docRun{T: bytesOf(s)}) }, "[-1.5e+7,{\"a\\u00e4\\n\":true },false]", "{ \"\" : null, \"b\":[],\"c\":0E-1}")
		for b := 0; b < 256; b++ {
			put(docRun{T: bytesOf("\"" + string([]byte{byte(b)}) + "\"")})
			put(docRun{T: bytesOf("\"\\" + string([]byte{byte(b)}) + "\"")})
			put(docRun{T: bytesOf("\"\\u00" + string([]byte{byte(b)}) + "0\"")})
			put(docRun{T: bytesOf(string([]byte{byte(b)}) + "1")})
			put(docRun{T: bytesOf("1" + string([]byte{byte(b)}))})
		}
		flush()
		put, flush = batch(c, "json", 0)
		for i := 0; i < c.n(5000, 40000); i++ {
			s := jsonValue(c.rnd, i%4)
			if c.rnd.Intn(4) == 0 {
				s = " " + s + "\n"
			}
			if i%3 != 0 {
				s = breakText(c.rnd, s, jsonCells)
			}
			if len(s) > 120 {
				continue
			}
			put(docRun{T: bytesOf(s), Part: "picks"})
		}
		longJSON(c, func(s string) {
			part := ""
			if len(s) < 400 {
				part = "picks"
			}
			put(docRun{T: bytesOf(s), Part: part})
		})
		flush()
	}
	suites["C26"] = func(c *ctx) {
		put, flush := batch(c, "mxt", 1)
		cells := []string{"//", "X", " ", "-->", "\n", "\r\n", "a"}
		for _, s := range allTexts(cells, c.n(3, 4)) {
			put(docRun{T: bytesOf("// a -->" + s)})
			put(docRun{T: bytesOf("//" + s)})
		}
		changes(c, c.n(15000, 100000), func(s string) { put(docRun{T: bytesOf(s)}) }, "//X- a c --> Y \n t\n//Y b\n//-->\n\n//", "// n -->\r\n//Z\r\n")
		repeats(4, func(s string) { put(docRun{T: bytesOf(strings.ReplaceAll(s, " ", ""))}) }, "// \t n \t c \t --> \t X \n a \n // \n //X \t m \t --> \r\n b")
		repeats(4, func(s string) { put(docRun{T: bytesOf(strings.ReplaceAll(strings.ReplaceAll(s, " ", ""), "_", " "))}) }, "// _ n _ c _ --> _ X _ \n a \n // \n //X _ m _ x--> \r\n b \n //", "//Y _ n _ --> \n \n // _ k _ d -->")
		for _, s := range points(c, 40) {
			put(docRun{T: bytesOf("// a" + s + "b -->\ntext")})
			put(docRun{T: bytesOf("// " + s + " -->\ntext")})
			put(docRun{T: bytesOf("// a " + s + " --> " + s + "\n//\n" + s + "\n//" + s + " b -->\n" + s)})
		}
		flush()
		for i := 0; i < c.n(2500, 40000); i++ {
			row := &docRow{Kind: "mxt", One: i % 2}
			for n := 1 + c.rnd.Intn(4); n > 0; n-- {
				s, want := mxtDoc(c.rnd)
				if c.rnd.Intn(3) == 0 {
					s, want = breakText(c.rnd, s, mxtCells), nil
				}
				row.Runs = append(row.Runs, docRun{T: bytesOf(s), Want: want})
			}
			c.emit(row)
		}
		put, flush = batch(c, "mxt", 1)
		longMXT(c, func(s string, want [][][]int) { put(docRun{T: bytesOf(s), Want: want}) })
		flush()
	}
	suites["C27"] = func(c *ctx) {
		put, flush := batch(c, "lua", 1)
		lit := func(part, pre string, n int, cells ...string) {
			for _, s := range allTexts(cells, n) {
				put(docRun{T: bytesOf(pre + s), Part: part})
			}
		}
		lit("numeral", "", c.n(5, 6), "0", "9", ".", "e", "+", "x")
		lit("numeral", "0x", c.n(4, 5), "0", "f", "G", ".", "p", "-")
		lit("numeral", "", c.n(2, 3), "7", "E", "-", "X", "P", "A", " ", "..", "g", "0x")
		lit("string", "\"", c.n(4, 5), "\"", "'", "\\", "a", "\n", "\\z")
		lit("string", "'\\", c.n(3, 4), "x", "u{", "}", "1", "9", "f", "'", "g")
		lit("string", "[", c.n(5, 6), "[", "]", "=", "a", "\n")
		lit("string", "[=[", c.n(4, 5), "[", "]", "=", "a")
		lit("string", "[==[", c.n(4, 5), "]", "=", "]==]")
		lit("string", "", c.n(2, 3), "[", "=", "\"", "'", "a", " ")
		lit("comment", "--", c.n(4, 5), "[", "]", "=", "a", "\n", "-")
		lit("comment", "--[=[", c.n(4, 5), "]", "=", "\n", "]=]")
		lit("comment", "", 2, "-", " ", "[", "a")
		// all short sequences of symbols in the places of a program
		in := func(pre, post string, n int, cells ...string) {
			for _, s := range allTexts(cells, n) {
				put(docRun{T: bytesOf(pre + s + post)})
			}
		}
		in("a = {", "}", c.n(4, 5), "1", ",", ";", "[1]", "=", " b ")
		in("f(", ")", c.n(4, 5), "1", ",", ";", " b ", "...", "=")
		in("function f(", ") end", c.n(4, 5), " a ", ",", "...", "1", ":")
		in("function ", "() end", c.n(4, 5), " a ", ".", ":", "[1]")
		in("for ", " do end", c.n(5, 6), " a ", ",", "=", " in ", "1")
		in("local ", "", c.n(5, 6), " a ", ",", "=", "<const>", "1")
		in("if ", " end", c.n(5, 6), " a ", " then ", " else ", " elseif ")
		in("return ", "", c.n(4, 5), "1", ",", ";", " return ", " a")
		in("repeat ", " a", c.n(4, 5), " break ", " until ", ";", " return ")
		in("", "", c.n(4, 5), " a ", "=", ",", "1", "()", ".", ":", "[1]")
		in("a = ", "", c.n(4, 5), "a", "[[", "]]", "[", "]", "[=[", "]=]")
		in("a", "= 1", c.n(4, 5), "[[", "]]", "[", "]", "=", "b")
		in("a = 1", "b", c.n(4, 5), "-", "--", "[[", "]]", "\n", "..", ".")
		in("a ", " = 1", c.n(4, 5), ".b", ":c", "()", "[1]", "{}", "''", ",")
		in("f", " ", c.n(4, 5), ".b", ":c", "()", "[1]", "{}", "''", "[[]]")
		in("a = ", "", c.n(4, 5), "1", "-", " not ", "(", ")", "..", "^")
		in("a = 1 ", " 2", c.n(3, 4), "<", ">", "=", "~", "/", "-", ".", "&", "|", " and ", " or ")
		in("", "", c.n(4, 5), " do ", " end ", " while a ", ";", " break ", " return ")
		in(" goto ", "", c.n(3, 4), " a ", "::", ";", "1")
		in("::", "", c.n(3, 4), " a ", "::", ";", "1", ":")
		in("for a=", "do end", c.n(6, 7), "1", ",", " b ")
		in("for a in ", " do end", c.n(5, 6), "1", ",", " b ", "=")
		lit("string", "\"\\", c.n(5, 6), "\n", "\r", "\"", "\\", "a")
		lit("string", "'a\\z", c.n(4, 5), "\n", "\r", "'", "\v", " ", "a")
		lit("string", "[[", c.n(4, 5), "\n", "\r", "]]", "\\")
		lit("string", "'\\u", c.n(4, 5), "{", "}", "0", "g", "'")
		lit("string", "\"\\x", c.n(4, 5), "4", "F", "g", "\"")
		lit("comment", "--", c.n(5, 6), "\n", "\r", "[[", "]]")
		repeats(5, func(s string) { put(docRun{T: bytesOf(s)}) },
			"for i = 1 , 2 do break end", "for i = a , b , c do f ( ) end", "for k , v in p , q do goto x end :: x ::", "function a . b : c ( d , e , ... ) return 1 , 2 ; end",
			"if a then b ( ) elseif not c then d { } else e '' end", "while a < b do repeat a = a .. b until # c ~= 1 end", "t = { [ 1 ] = 2 ; x = 3 , \"s\" , }",
			"a . b , c [ 1 ] = ( d ) ( 2 ) , ~ 1 // 3e5", "local function f ( ... ) end return a and b ; ", "local a < const > , b < close > = 1 , 2", "f : m ( 1 , a ) . x { 1 } [ [[]] ] = 1",
			"return function ( a ) return - - 1 ^ not a end ;", "local a = { { } , { ; } }", "( a ) . b ( ) ( )", "do ; ; end :: a :: break")
		changes(c, c.n(12000, 300000), func(s string) { put(docRun{T: bytesOf(s)}) },
			"local a <close>, b = 0x1F.8p-1, nil", "for i = 1, 2 do break end", "for k, v in p do goto x end ::x::", "function a.b:c(d, ...) return 1; end",
			"if a then b() elseif not c then d{} else e'' end", "while a < b do repeat a = a .. b until #c ~= 1 end", "t = {[1] = 2; x = 3, \"s\"} --[[c]] f:m() -- d",
			"a.b, c[1] = (d)(2), ~1 // 3e5 >> 2 | 4 & 5", "local function f() end return a and b, [=[x]=]")
		for _, l := range []struct{ part, s string }{{"numeral", "0x1F.8p-1"}, {"numeral", "12.5e+10"}, {"string", "'a\\n\\x4f\\065\\u{2A}\\z  b'"}, {"string", "\"\\\"\\\r\n\""}, {"string", "[==[a]=]b]==]"}, {"comment", "--[=[a]]b]=]"}, {"comment", "-- [[\n"}} {
			l := l
			changes(c, 20000, func(s string) { put(docRun{T: bytesOf(s), Part: l.part}) }, l.s)
		}
		for _, s := range points(c, 40) {
			put(docRun{T: bytesOf("'" + s + "'"), Part: "string"})
			put(docRun{T: bytesOf("[=[" + s + "]=]"), Part: "string"})
			put(docRun{T: bytesOf("--" + s + "\n"), Part: "comment"})
			put(docRun{T: bytesOf("a = b" + s)})
			for _, w := range luaWords {
				put(docRun{T: bytesOf(w + s), Part: "name"})
			}
			put(docRun{T: bytesOf(s), Part: "name"})
		}
		for _, w := range luaWords {
			for _, x := range luaWords {
				put(docRun{T: bytesOf(w + x), Part: "name"})
				put(docRun{T: bytesOf(w + " " + x), Part: "name"})
			}
			for i := range w {
				put(docRun{T: bytesOf(w[:i]), Part: "name"})
				put(docRun{T: bytesOf(w[:i] + w[i+1:]), Part: "name"})
				put(docRun{T: bytesOf(w[:i] + strings.ToUpper(w[i:i+1]) + w[i+1:]), Part: "name"})
			}
		}
		for b := 0; b < 256; b++ {
			x := string([]byte{byte(b)})
			for _, q := range []string{"\"", "'"} {
				put(docRun{T: bytesOf(q + x + q), Part: "string"})
				put(docRun{T: bytesOf(q + "\\" + x + q), Part: "string"})
				put(docRun{T: bytesOf(q + "\\z" + x + "\n" + q), Part: "string"})
			}
			put(docRun{T: bytesOf("[[" + x + "]]"), Part: "string"})
			put(docRun{T: bytesOf("--" + x + "\n"), Part: "comment"})
			for _, w := range luaWords {
				put(docRun{T: bytesOf(w + x), Part: "name"})
			}
			put(docRun{T: bytesOf(x + "end"), Part: "name"})
			put(docRun{T: bytesOf("1" + x), Part: "numeral"})
			put(docRun{T: bytesOf(x + "1"), Part: "numeral"})
			put(docRun{T: bytesOf("a = b" + x)})
			put(docRun{T: bytesOf(x + "a = b")})
		}
		flush()
		put, flush = batch(c, "lua", 0)
		for i := 0; i < c.n(4000, 60000); i++ {
			g := &luaGen{r: c.rnd}
			for n := 1 + c.rnd.Intn(3); n > 0; n-- {
				g.stat(c.rnd.Intn(3))
			}
			if c.rnd.Intn(4) == 0 {
				g.put("return")
			}
			if len(g.l) > 60 {
				continue
			}
			if i%2 == 0 {
				g.mutate()
			}
			s := g.layout(c.rnd.Intn(4))
			if i%8 == 0 {
				s = breakText(c.rnd, s, []string{" ", "\n", "--", "[[", "]]", "\"", "'", "a", "1", ".", "=", "x", "e"})
			}
			if c.rnd.Intn(8) == 0 {
				s = " " + s + "\n"
			}
			part := "picks"
			if i%16 == 3 {
				part = "script"
				s = []string{"", "#!", "#!/bin/lua", "#! end --[[", "# x"}[c.rnd.Intn(5)] + []string{"", "\n", "\r\n", "\r"}[c.rnd.Intn(4)] + s
			}
			put(docRun{T: bytesOf(s), Part: part})
		}
		for _, s := range []string{"", "\n", "\r\n", "a=1", "\n#!", "\n#!\na=1", "\r--x"} {
			for _, b := range []string{"#!", "#!x", "#", "!", ""} {
				put(docRun{T: bytesOf(b + s), Part: "script"})
			}
		}
		flush()
		put, flush = batch(c, "lua", 1)
		fresh, flushFresh := batch(c, "lua", 0)
		longLua(c, func(part, s string) {
			if part == "script" {
				fresh(docRun{T: bytesOf(s), Part: part})
				return
			}
			put(docRun{T: bytesOf(s), Part: part})
			if part == "" && len(s) < 300 {
				fresh(docRun{T: bytesOf(s), Part: "picks"})
			}
		})
		flush()
		flushFresh()
	}
}
