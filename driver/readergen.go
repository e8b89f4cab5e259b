package main

import (
	"fmt"
	"math/rand"
	"strings"
)

// gen makes random reader expressions.
type gen struct {
	r       *rand.Rand
	nodes   []node
	cells   []int    // begins of Janus pairs
	done    []int    // cells whose begin was generated
	kinds   []string // inner kinds
	leafs   []string
	rules   []int // rule nodes that can be referred to
	refs    int
	noPicks int // inside of a part where picks are not wanted
	maps    int
	names   int
	empty   bool // picks of readers that can match the empty string are wanted
}

var leafKinds = []string{"lit", "lit", "lit", "lit", "rune", "rune", "fold", "anyrune", "between", "set", "holey", "match"}
var valueKinds = []string{"bool", "int", "uint"}
var peg = []string{"seq", "seq", "seq", "any", "any", "any", "opt", "many", "zom", "times", "skipseq"}
var look = []string{"at", "not", "to", "past", "body", "bodytail", "body", "bodytail"}

func (g *gen) add(n node) int {
	g.nodes = append(g.nodes, n)
	return len(g.nodes)
}

func (g *gen) pick(l []string) string { return l[g.r.Intn(len(l))] }

var litPool = []string{"a", "b", "ab", "ba", "aa", "c", "abc", "", "\u00e4", "a\u00e4", "\xff", "0", "1", " ", "aab", "x\n", "\xa4", "\u4e16"}
var runePool = []rune{'a', 'b', 'c', 'a', 'b', '0', '1', ' ', '\u00e4', '\u4e16', 0xFFFD, 0x1F600}

// runes without case that are special elsewhere: combining, joining, spaces,
// invisible, right to left, private, at the ends of the encodings
var oddRunes = []rune{0, 0x7f, 0x80, 0x85, 0xa0, 0xad, 0x300, 0x301, 0x327, 0x5d0, 0x7ff, 0x800, 0x1680, 0x200b, 0x200d, 0x2028, 0x202e, 0x20ac, 0x3000, 0xd7ff, 0xe000, 0xfe0f, 0xfeff, 0xffff, 0x10000, 0x1f468, 0x1f3fd, 0x10ffff, '\\', '"', '\'', '\t', '\v'}

func (g *gen) odd() string {
	s := string(oddRunes[g.r.Intn(len(oddRunes))])
	switch g.r.Intn(4) {
	case 0:
		s = "a" + s
	case 1:
		s += string(oddRunes[g.r.Intn(len(oddRunes))])
	}
	return s
}

func (g *gen) someLit() string {
	if g.r.Intn(16) == 0 {
		return g.odd()
	}
	for {
		s := litPool[g.r.Intn(len(litPool))]
		if s != "" || g.r.Intn(3) == 0 {
			return s
		}
	}
}
func (g *gen) someRune() int {
	if g.r.Intn(16) == 0 {
		return int(oddRunes[g.r.Intn(len(oddRunes))])
	}
	return int(runePool[g.r.Intn(len(runePool))])
}
func (g *gen) someRunes(max int) []int {
	res := []int{}
	for n := g.r.Intn(max + 1); n > 0; n-- {
		res = append(res, g.someRune())
	}
	return res
}
func (g *gen) someRange() (int, int) {
	switch g.r.Intn(7) {
	case 0:
		x := g.someRune()
		return x, x
	case 1:
		return 'a', 'b'
	case 2:
		return 'b', 'z'
	case 3:
		return 'b', 'a'
	case 4:
		return 0, 0x10FFFF
	case 5:
		return '0', '9'
	}
	return 'a', 0x4e16
}
func (g *gen) name(p string) string {
	g.names++
	return fmt.Sprintf("%s%d", p, g.names)
}

func (g *gen) leaf() int {
	k := g.pick(g.leafs)
	n := node{K: k}
	switch k {
	case "lit":
		n.S = bytesOf(g.someLit())
		if g.r.Intn(2) == 0 {
			n.Ctor = "raw"
		}
	case "fold":
		n.S = bytesOf(refold(g.r, validOnly(g.someLit())))
	case "rune":
		n.N = g.someRune()
		if g.r.Intn(2) == 0 {
			n.Ctor = "raw"
		}
	case "anyrune":
		n.RS = g.someRunes(3)
		if g.r.Intn(6) == 0 {
			n.RS, n.Ctor = []int{' ', '\r', '\n', '\t'}, "WS"
		}
	case "between":
		n.Lo, n.Hi = g.someRange()
		if g.r.Intn(6) == 0 {
			n.Lo, n.Hi, n.Ctor = '0', '9', "Digit"
		}
	case "set":
		for i := g.r.Intn(3); i >= 0; i-- {
			a, b := g.someRange()
			n.RG = append(n.RG, []int{a, b})
		}
		n.Ctor = []string{"BetweenAny", "BuildBetweenAny", "Set", "Set", "HexDigit"}[g.r.Intn(5)]
		switch n.Ctor {
		case "Set":
			n.RS = g.someRunes(2)
			if g.r.Intn(3) == 0 {
				n.RG = nil
			}
		case "HexDigit":
			n.RG = [][]int{{'0', '9'}, {'a', 'f'}, {'A', 'F'}}
		}
	case "holey":
		n.Lo, n.Hi = g.someRange()
		n.RS = g.someRunes(3)
	case "match":
		n.RS = g.someRunes(3)
		n.W = g.name("match")
	case "bool":
		n.F = []string{"", "*", "l", "U", "Cc"}[g.r.Intn(5)]
	case "int", "uint":
		n.Base = []int{8, 10, 16}[g.r.Intn(3)]
		n.Bits = []int{8, 16, 32, 64}[g.r.Intn(4)]
		if g.r.Intn(12) == 0 {
			n.Base = 7
		}
	case "atend":
	case "jend":
		if len(g.done) == 0 {
			return g.leafLit("a")
		}
		n.N = g.done[g.r.Intn(len(g.done))]
		n.W = g.nodes[g.cells[n.N-1]-1].W
	case "invalid":
		n.Ctor = g.pick(invalidCtors)
		n.N = g.r.Intn(6)
	case "wrap":
		n.N = g.r.Intn(4)
		n.F = []string{"", "read", "other"}[g.r.Intn(3)]
		n.W = g.name("wrap")
		if g.r.Intn(2) == 0 {
			c := g.leafOf(leafKinds)
			n.C = []int{c}
		}
	default:
		panic("driver: leaf " + k)
	}
	return g.add(n)
}

func (g *gen) leafOf(l []string) int {
	old := g.leafs
	g.leafs = l
	i := g.leaf()
	g.leafs = old
	return i
}

func (g *gen) leafLit(s string) int { return g.add(node{K: "lit", S: bytesOf(s)}) }

// consumes tells that a node never succeeds without moving.
func (g *gen) consumes(i int) bool {
	n := g.nodes[i-1]
	switch n.K {
	case "lit", "fold":
		return len(n.S) > 0
	case "rune", "anyrune", "between", "set", "holey", "match", "bool", "int", "uint", "many", "not":
		return true
	case "seq":
		for _, c := range n.C {
			if g.consumes(c) {
				return true
			}
		}
		return false
	case "any":
		for _, c := range n.C {
			if !g.consumes(c) {
				return false
			}
		}
		return true
	case "skipseq":
		for _, c := range n.C[1:] {
			if g.consumes(c) {
				return true
			}
		}
		return false
	case "times":
		return n.N > 0 && g.consumes(n.C[0])
	case "map", "pick", "mon", "named":
		return g.consumes(n.C[0])
	}
	return false
}

// expr makes an expression; guarded: text was consumed since the rule began,
// so rules can be referred to.
func (g *gen) expr(depth int, guarded bool) int {
	if guarded && len(g.rules) > 0 && g.refs > 0 && g.r.Intn(3) == 0 {
		g.refs--
		return g.rules[g.r.Intn(len(g.rules))]
	}
	if depth <= 0 || g.r.Intn(8) == 0 {
		return g.leaf()
	}
	if len(g.nodes) > 3 && g.r.Intn(15) == 0 { // one reader at two places
		i := 1 + g.r.Intn(len(g.nodes))
		switch g.nodes[i-1].K {
		case "lit", "rune", "fold", "anyrune", "between", "set", "holey", "match", "jend":
			return i
		}
	}
	k := g.pick(g.kinds)
	n := node{K: k}
	switch k {
	case "seq":
		was := guarded
		for c := 1 + g.r.Intn(3); c >= 0; c-- {
			i := g.expr(depth-1, was)
			n.C = append(n.C, i)
			was = was || g.consumes(i)
		}
		if g.r.Intn(25) == 0 {
			n.C = n.C[:1]
		}
	case "any":
		for c := 1 + g.r.Intn(3); c >= 0; c-- {
			n.C = append(n.C, g.expr(depth-1, guarded))
		}
		switch g.r.Intn(20) {
		case 0:
			n.Ctor = "AnyFold"
			n.C = nil
			for c := 1 + g.r.Intn(3); c > 0; c-- {
				n.C = append(n.C, g.leafOf([]string{"fold"}))
			}
		case 1:
			n.Ctor, n.C = "NL", []int{g.leafLit("\n"), g.leafLit("\r\n")}
		}
	case "skipseq":
		skip := []int{}
		switch g.r.Intn(3) {
		case 0:
			n.Ctor = "SkipWSSeq"
			skip = append(skip, g.add(node{K: "zom", C: []int{g.add(node{K: "anyrune", RS: []int{' ', '\r', '\n', '\t'}})}}))
		case 1:
			skip = append(skip, g.add(node{K: "zom", C: []int{g.leafOf(leafKinds)}}))
		default:
			skip = append(skip, g.expr(depth-2, guarded))
		}
		was := guarded
		n.C = skip
		for c := g.r.Intn(3); c >= 0; c-- {
			i := g.expr(depth-1, was)
			n.C = append(n.C, i)
			was = was || g.consumes(i)
		}
	case "times":
		n.N = []int{0, 1, 2, 2, 3, -1}[g.r.Intn(6)]
		n.C = []int{g.expr(depth-1, guarded)}
	case "body", "bodytail":
		if k == "bodytail" && !g.empty {
			g.noPicks++
		}
		b := g.expr(depth-1, guarded)
		if k == "bodytail" && !g.empty {
			g.noPicks--
		}
		n.C = []int{b, g.expr(depth-1, guarded)}
	case "jbeg":
		n.W = g.name("j")
		n.C = []int{g.expr(depth-1, guarded)}
		n.N = len(g.cells) + 1
		i := g.add(n)
		g.cells = append(g.cells, i)
		g.done = append(g.done, n.N)
		return i
	case "map":
		g.maps++
		n.N = g.maps
		n.C = []int{g.expr(depth-1, guarded)}
	case "pick":
		i := g.expr(depth-1, guarded)
		if g.noPicks > 0 || !(g.consumes(i) || g.empty) {
			return i
		}
		n.W = g.name([]string{"p", "p", "p", "p", ";", " "}[g.r.Intn(6)])
		n.C = []int{i}
	case "mon", "named":
		n.W = g.name(k[:1])
		n.C = []int{g.expr(depth-1, guarded)}
	default: // opt many zom at not to past
		n.C = []int{g.expr(depth-1, guarded)}
	}
	return g.add(n)
}

// ruled makes a few rules that refer to each other, and returns a root.
func (g *gen) ruled(depth int, obs bool) int {
	n := 1 + g.r.Intn(2)
	for i := 0; i < n; i++ {
		g.rules = append(g.rules, g.add(node{K: "rule", W: g.name("r")}))
	}
	own := append([]int{}, g.rules...)
	for _, ri := range own {
		g.refs = 2
		body := g.expr(depth, false)
		if g.r.Intn(2) == 0 { // make recursion likely
			a := g.leafLit(string("abc"[g.r.Intn(3)]))
			ref := g.rules[g.r.Intn(len(g.rules))]
			s := g.add(node{K: "seq", C: []int{a, ref, g.leafOf(leafKinds)}})
			body = g.add(node{K: "any", C: []int{s, body}})
		}
		if obs {
			for _, k := range []string{"pick", "mon", "map"} {
				has := false
				for _, x := range g.kinds {
					has = has || x == k
				}
				if !has || g.r.Intn(2) == 0 {
					continue
				}
				if k == "pick" && !g.consumes(body) && !g.empty {
					continue
				}
				x := node{K: k, W: g.nodes[ri-1].W, C: []int{body}, Ctor: []string{"rule", "rule2"}[g.r.Intn(2)]}
				if k == "map" {
					g.maps++
					x.N = g.maps
				}
				body = g.add(x)
			}
		}
		g.nodes[ri-1].C = []int{body}
	}
	g.refs = 2
	switch g.r.Intn(3) {
	case 0:
		return own[0]
	case 1:
		return g.add(node{K: "seq", C: []int{own[0], g.leafOf(leafKinds)}})
	}
	return g.add(node{K: "any", C: []int{g.add(node{K: "seq", C: []int{own[0], g.leafOf(leafKinds)}}), own[len(own)-1]}})
}

// grammar lets the rules be observed as a grammar (MonitorGrammar,
// NewBasketFor), if all monitors or picks are the outermost observers of rules.
func (g *gen) grammar(readers int) {
	for _, k := range []string{"mon", "pick"} {
		outer := map[int]bool{}
		for _, n := range g.nodes {
			if n.K == "rule" && g.nodes[n.C[0]-1].K == k && g.nodes[n.C[0]-1].Ctor != "" {
				outer[n.C[0]] = true
			}
		}
		all := 0
		for _, n := range g.nodes {
			if n.K == k {
				all++
			}
		}
		if readers == 1 && all > 0 && all == len(outer) && g.r.Intn(2) == 0 {
			for i := range outer {
				g.nodes[i-1].Ctor = "ruleg"
			}
			return
		}
	}
}

// sample makes a text that the node is likely to read.
func (g *gen) sample(i, budget int, mem map[int]string) string {
	n := g.nodes[i-1]
	if budget <= 0 {
		return ""
	}
	sub := func(k int) string { return g.sample(n.C[k], budget-1, mem) }
	junk := func() string {
		s := ""
		for c := g.r.Intn(3); c > 0; c-- {
			s += litPool[g.r.Intn(len(litPool))]
		}
		return s
	}
	oneOf := func(rs []int) string {
		if len(rs) == 0 {
			return "a"
		}
		return string(rune(rs[g.r.Intn(len(rs))]))
	}
	between := func(a, b int) string {
		switch g.r.Intn(4) {
		case 0:
			return string(rune(b))
		case 1:
			if a+1 <= b {
				return string(rune(a + 1))
			}
		}
		return string(rune(a))
	}
	switch n.K {
	case "lit":
		return strOf(n.S)
	case "fold":
		return refold(g.r, strOf(n.S))
	case "rune":
		return string(rune(n.N))
	case "anyrune", "match":
		return oneOf(n.RS)
	case "between":
		return between(n.Lo, n.Hi)
	case "holey":
		if n.Lo <= 'x' && 'x' <= n.Hi && g.r.Intn(2) == 0 {
			return "x"
		}
		return between(n.Lo, n.Hi)
	case "set":
		k := g.r.Intn(len(n.RG) + 1)
		if k < len(n.RG) {
			return between(n.RG[k][0], n.RG[k][1])
		}
		return oneOf(n.RS)
	case "bool":
		return []string{"true", "false", "True", "FALSE", "TRUE", "tru"}[g.r.Intn(6)]
	case "int", "uint":
		return []string{"0", "-1", "12", "+7", "300", "99999", "-", "ff", "4294967296"}[g.r.Intn(9)]
	case "seq":
		s := ""
		for k := range n.C {
			s += sub(k)
		}
		return s
	case "skipseq":
		s := sub(0)
		for k := range n.C {
			if k > 0 {
				s += sub(k) + sub(0)
			}
		}
		return s
	case "any":
		if len(n.C) == 0 {
			return ""
		}
		return sub(g.r.Intn(len(n.C)))
	case "opt":
		if g.r.Intn(2) == 0 {
			return ""
		}
		return sub(0)
	case "many":
		s := sub(0)
		for g.r.Intn(2) == 0 {
			s += sub(0)
		}
		return s
	case "zom":
		s := ""
		for g.r.Intn(3) != 0 {
			s += sub(0)
		}
		return s
	case "times":
		s := ""
		for k := 0; k < n.N; k++ {
			s += sub(0)
		}
		return s
	case "at":
		if g.r.Intn(2) == 0 {
			return ""
		}
		return sub(0)
	case "not":
		return oneOf([]int{'a', 'b', 'c', 0xe4, 0x1F600})
	case "to":
		if g.r.Intn(2) == 0 {
			return junk()
		}
		return junk() + sub(0)
	case "past":
		return junk() + sub(0)
	case "body", "bodytail":
		return sub(0) + sub(1)
	case "jbeg":
		s := sub(0)
		mem[n.N] = s
		return s
	case "jend":
		return mem[n.N]
	case "wrap", "user":
		s := ""
		if n.N > 0 {
			s = strings.Repeat("a", n.N)
		}
		if len(n.C) > 0 {
			s += sub(0)
		}
		return s
	case "named", "rule", "map", "pick", "mon":
		return sub(0)
	}
	return ""
}

func (g *gen) mutate(s string) string {
	for c := g.r.Intn(3); c > 0; c-- {
		i := g.r.Intn(len(s) + 1)
		x := litPool[g.r.Intn(len(litPool))]
		if g.r.Intn(4) == 0 {
			x = g.odd()
		}
		switch g.r.Intn(5) {
		case 0:
			s = s[:i] + x + s[i:]
		case 1:
			if i < len(s) {
				s = s[:i] + s[i+1:]
			}
		case 2:
			s = s[:i]
		case 3:
			s = s + x
		case 4:
			if i < len(s) {
				s = s[:i] + x + s[i+1:]
			}
		}
	}
	return s
}

const maxText = 14

// texts to try with the roots
func (g *gen) texts(roots []int, n int) [][]int {
	seen := map[string]bool{}
	res := [][]int{}
	put := func(s string) {
		max := maxText
		if len(g.rules) > 0 {
			max = 9
		}
		if len(s) > max {
			s = s[:max]
		}
		if !seen[s] {
			seen[s] = true
			res = append(res, bytesOf(s))
		}
	}
	for i := 0; i < n; i++ {
		s := g.sample(roots[g.r.Intn(len(roots))], 10, map[int]string{})
		switch i % 6 {
		case 1, 2, 4:
			s = g.mutate(s)
		case 5: // begins like the text, more than once
			a, b := g.r.Intn(len(s)+1), 0
			if g.r.Intn(2) == 0 {
				b = g.r.Intn(a + 1)
			}
			s = s[:a] + s[:b] + s
		}
		put(s)
	}
	put("")
	put(randText(g.r, 6))
	return res
}

var plainAPIs = []string{"Use", "Use", "Read"}
var errAPIs = []string{"Use", "Read", "TraceUse", "TraceUseFunc", "UseFunc", "TokenizeUse", "CaptureUse"}
var allAPIs = []string{"Use", "Read", "TraceUse", "TraceUseFunc", "UseFunc", "TokenizeUse", "CaptureUse",
	"Scope", "Trace", "Tokenize", "Capture", "UseFunc!", "TraceUseFunc!", "Scope!", "Trace!", "Tokenize!", "Capture!"}

type readOpts struct {
	kinds, leafs []string
	apis         []string
	tr           string
	obs          string
	readers      int // readers per row
	depth        int
	mode         func(r *rand.Rand) int
	rules        int // one of that many rows has rules
	empty        int // one of that many rows picks empty matches
	rst          bool
	user         int // one of that many readers is of the user's own type
	runs         int // runs per row
}

func modeFresh(r *rand.Rand) int { return 0 }
func modeMixed(r *rand.Rand) int { return []int{0, 1, 1, 1, 2, 2}[r.Intn(6)] }
func modeReuse(r *rand.Rand) int { return []int{1, 1, 1, 2}[r.Intn(4)] }

func readCase(c *ctx, o readOpts) *readRow {
	g := &gen{r: c.rnd, kinds: o.kinds, leafs: o.leafs, empty: o.empty > 0 && c.rnd.Intn(o.empty) == 0}
	row := &readRow{Kind: "read", Tr: o.tr, Obs: o.obs, most: 4000}
	for i := 0; i < o.readers; i++ {
		var root int
		if i > 0 && c.rnd.Intn(3) == 0 { // the same expression again, or a part of it
			root = row.Root[0]
			if x := g.nodes[root-1].C; len(x) > 0 && c.rnd.Intn(2) == 0 {
				root = x[c.rnd.Intn(len(x))]
			}
		} else if o.rules > 0 && c.rnd.Intn(o.rules) == 0 {
			g.rules = nil
			root = g.ruled(1+c.rnd.Intn(o.depth-1), true)
		} else {
			g.refs = 0
			root = g.expr(1+c.rnd.Intn(o.depth), false)
		}
		if o.user > 0 && c.rnd.Intn(o.user) == 0 {
			u := node{K: "user", N: c.rnd.Intn(6) - 3, F: []string{"", "", "read", "other"}[c.rnd.Intn(4)], W: g.name("user")}
			if c.rnd.Intn(4) > 0 {
				u.C = []int{root}
			}
			root = g.add(u)
		}
		row.Root = append(row.Root, root)
	}
	g.grammar(o.readers)
	row.N = g.nodes
	row.Cells = g.cells
	few := o.runs
	if few > 40 {
		few = 40
	}
	row.TX = g.texts(row.Root, few)
	far := 0
	if c.rnd.Intn(8) == 0 { // the same far from the start
		far = []int{25, 70, 140, 310, 1100}[c.rnd.Intn(5)]
		pad := bytesOf(strings.Repeat([]string{"a", "ab", "a\n", "\u00e4", "\xff"}[c.rnd.Intn(5)], far))[:far]
		for i, t := range row.TX {
			row.TX[i] = append(append([]int{}, pad...), t...)
		}
	}
	n := o.runs
	for j := 0; j < n; j++ {
		run := readRun{I: 1 + c.rnd.Intn(o.readers), T: 1 + j%len(row.TX), API: o.apis[c.rnd.Intn(len(o.apis))], Mode: o.mode(c.rnd), PN: c.rnd.Intn(6) - 1}
		if run.API == "Read" && row.N[row.Root[run.I-1]-1].K == "user" {
			run.API = "Use"
		}
		if j == 0 {
			run.Mode = 0
		}
		if run.Mode >= 2 {
			run.T = row.Runs[j-1].T
			run.At = far + c.rnd.Intn(len(row.TX[run.T-1])-far+1)
		} else if l := len(row.TX[run.T-1]) - far; l > 0 && c.rnd.Intn(4) == 0 {
			run.At = far + c.rnd.Intn(l+1)
		} else {
			run.At = far
		}
		if o.rst {
			run.Rst = b2i(run.Mode < 2 || c.rnd.Intn(4) == 0)
		}
		row.Runs = append(row.Runs, run)
	}
	return row
}

// again lets readers of every kind read many texts, one after the other.
func again(c *ctx, o func(c *ctx, i int) readOpts) {
	modes := []int{}
	for i := 0; i < 40; i++ {
		if m := o(c, i).mode(c.rnd); m > 0 {
			modes = append(modes, m)
		}
	}
	if len(modes) == 0 {
		return
	}
	for i, k := range uniq(o(c, 0).kinds) {
		x := o(c, i)
		x.kinds, x.depth, x.rules, x.readers, x.mode = []string{k}, 1+i%2, 0, 1, func(r *rand.Rand) int { return modes[r.Intn(len(modes))] }
		x.runs = []int{c.n(150, 300), 300, c.n(300, 1100)}[i%3]
		c.emit(readCase(c, x))
	}
}

func readSuite(quick, thorough int, o func(c *ctx, i int) readOpts) func(*ctx) {
	return func(c *ctx) {
		for i := 0; i < c.n(quick, thorough); i++ {
			c.emit(readCase(c, o(c, i)))
		}
		again(c, o)
	}
}

func cat(ls ...[]string) []string {
	res := []string{}
	for _, l := range ls {
		res = append(res, l...)
	}
	return res
}

// small makes every expression u(v(leaf)), seq(u(leaf), leaf), any(seq(leaf,
// leaf), u(leaf)) and so on, and reads all short texts with each.
func small(c *ctx, kinds []string, tr, obs string) {
	texts := [][]int{}
	for _, s := range allTexts([]string{"a", "b"}, c.n(4, 5)) {
		texts = append(texts, bytesOf(s))
	}
	texts = append(texts, bytesOf("\u00e4a"), bytesOf("a\u00e4"), bytesOf("\xffa"), bytesOf("a\xff"))
	g := &gen{r: c.rnd, leafs: leafKinds}
	flush := func(root int) {
		row := &readRow{Kind: "read", N: g.nodes, Root: []int{root}, TX: texts, Tr: tr, Obs: obs}
		for i := range texts {
			if obs == "what" {
				break
			}
			row.Runs = append(row.Runs, readRun{I: 1, T: i + 1, API: plainAPIs[i%len(plainAPIs)], Mode: b2i(tr == "none"), PN: -1})
		}
		c.emit(row)
		g.nodes = nil
	}
	leafs := []string{"a", "b", "ab", ""}
	lit := func(i int) int { return g.leafLit(leafs[i]) }
	wrap := func(k string, x int) int {
		n := node{K: k, C: []int{x}}
		switch k {
		case "times":
			n.N = 2
		case "body", "bodytail":
			n.C = []int{x, lit(1)}
		case "skipseq":
			n.C = []int{g.add(node{K: "zom", C: []int{lit(0)}}), x}
		case "seq":
			n.C = []int{x, lit(0)}
		case "any":
			n.C = []int{x, lit(0)}
		case "pick", "mon", "named":
			n.W = g.name("s")
		case "map":
			g.maps++
			n.N = g.maps
		}
		return g.add(n)
	}
	for _, u := range kinds {
		for i := range leafs {
			flush(wrap(u, lit(i)))
			for _, v := range kinds {
				flush(wrap(u, wrap(v, lit(i))))
				if i < 2 {
					y := wrap(v, lit(i))
					flush(g.add(node{K: "seq", C: []int{wrap(u, lit(i)), y}}))
					y = wrap(v, lit(1-i))
					flush(g.add(node{K: "any", C: []int{g.add(node{K: "seq", C: []int{wrap(u, lit(i)), lit(1)}}), y}}))
				}
			}
		}
	}
}

// reuse lets the roots of g read the texts, most of them with the readers and
// some with the scanner of the run before.
func (g *gen) reuse(c *ctx, roots []int, texts []string, runs int, mode func(*rand.Rand) int) {
	row := &readRow{Kind: "read", N: g.nodes, Root: roots, Cells: g.cells, Tr: "none"}
	for _, s := range texts {
		row.TX = append(row.TX, bytesOf(s))
	}
	for j := 0; j < runs; j++ {
		run := readRun{I: 1 + c.rnd.Intn(len(roots)), T: 1 + c.rnd.Intn(len(texts)), API: plainAPIs[j%len(plainAPIs)], Mode: mode(c.rnd), PN: -1}
		if j == 0 {
			run.Mode = 0
		} else if run.Mode == 2 {
			run.T = row.Runs[j-1].T
		}
		row.Runs = append(row.Runs, run)
	}
	c.emit(row)
	*g = gen{r: g.r, leafs: leafKinds}
}

// searches looks for words in texts that begin like the word many times.
func searches(c *ctx) {
	g := &gen{r: c.rnd, leafs: leafKinds}
	words := allTexts([]string{"a", "b"}, 4)
	words = append(words, "aabaac", "abcabd", "a\u00e4a\u00e4b", "\u4e16\u4e16\u4e17", "aaaab", "\xc3\u00e4", "ab\xff")
	for _, w := range words {
		if len(w) < 2 {
			continue
		}
		form := func(k int) int {
			switch k {
			case 0:
				return g.leafLit(w)
			case 1:
				n := node{K: "seq"}
				for _, r := range []byte(w) {
					n.C = append(n.C, g.leafLit(string([]byte{r})))
				}
				return g.add(n)
			case 2:
				return g.add(node{K: "seq", C: []int{g.add(node{K: "many", C: []int{g.leafLit(w[:1])}}), g.leafLit(w[1:])}})
			case 3:
				return g.add(node{K: "any", C: []int{g.leafLit(w + "b"), g.add(node{K: "seq", C: []int{g.leafLit(w[:1]), g.leafLit(w[1:])}})}})
			}
			return g.add(node{K: "seq", C: []int{g.leafLit(w), g.add(node{K: "any", C: []int{g.add(node{K: "atend"}), g.leafLit("b")}})}})
		}
		texts := []string{w, w[1:] + w, w + w}
		for len(texts) < c.n(14, 40) {
			s := ""
			for n := c.rnd.Intn(4); n > 0; n-- {
				s += w[:c.rnd.Intn(len(w))]
			}
			if c.rnd.Intn(6) > 0 {
				s += w
			}
			texts = append(texts, s+[]string{"", "b", "a", w[:1]}[c.rnd.Intn(4)])
		}
		for k := 0; k < 5; k++ {
			for _, kind := range []string{"to", "past", "body", "bodytail", "not"} {
				n := node{K: kind, C: []int{form(k)}}
				if kind == "body" || kind == "bodytail" {
					n.C = []int{g.add(node{K: "zom", C: []int{g.add(node{K: "between", Lo: 0, Hi: 0x10FFFF})}}), n.C[0]}
				}
				g.reuse(c, []int{g.add(n)}, texts, len(texts), modeReuse)
			}
		}
	}
}

// cuts searches for bytes that are parts of runes.
func cuts(c *ctx) {
	g := &gen{r: c.rnd, leafs: leafKinds}
	all := allTexts([]string{"a", "\u00e4", "\u4e16", "\xa4", "\xc3", "\xf0\x9f"}, 3)
	leafs := []node{{K: "lit", S: bytesOf("\xa4")}, {K: "lit", S: bytesOf("\xc3")}, {K: "lit", S: bytesOf("\xa4a")}, {K: "lit", S: bytesOf("\xb8\x96")}, {K: "lit", S: bytesOf("\xe4")},
		{K: "lit", S: bytesOf("\u00e4")}, {K: "lit", S: bytesOf("a\xc3")}, {K: "lit"}, {K: "fold", S: bytesOf("\u00c4")}, {K: "rune", N: 0xFFFD}, {K: "rune", N: 0xe4}, {K: "between", Lo: 0x80, Hi: 0x10FFFF},
		{K: "anyrune", RS: []int{0xFFFD, 0x4e16}}, {K: "atend"}}
	for _, l := range leafs {
		for _, kind := range []string{"to", "past", "body", "bodytail", "not", "at", "many", "zom", "times"} {
			texts := []string{}
			for _, s := range all {
				if c.thorough || len(texts) == 0 || c.rnd.Intn(len(all)) < 20 {
					texts = append(texts, s)
				}
			}
			n := node{K: kind, N: 2, C: []int{g.add(l)}}
			if kind == "body" || kind == "bodytail" {
				n.C = []int{g.add(node{K: "zom", C: []int{g.add(node{K: "between", Lo: 0, Hi: 0x10FFFF})}}), n.C[0]}
			}
			if kind != "times" {
				n.N = 0
			}
			g.reuse(c, []int{g.add(n)}, texts, 2*len(texts), modeReuse)
		}
	}
}

// pairs uses Janus pairs again and again with similar strings.
func pairs(c *ctx) {
	g := &gen{r: c.rnd, leafs: leafKinds}
	words := append(allTexts([]string{"a", "b", "c"}, 3), "aaaa", "abab", "abba", "aaab", "aabb", "bbbb", "abca", "abcb", "acca")
	beg := func(sub int) (int, int) {
		w := g.name("j")
		n := len(g.cells) + 1
		b := g.add(node{K: "jbeg", W: w, C: []int{sub}, N: n})
		g.cells = append(g.cells, b)
		return b, g.add(node{K: "jend", N: n, W: w})
	}
	seq := func(l ...int) int { return g.add(node{K: "seq", C: l}) }
	one := func(k string, x int) int { return g.add(node{K: k, C: []int{x}}) }
	for i := 0; i < c.n(200, 2500); i++ {
		sub := one([]string{"zom", "many", "opt"}[c.rnd.Intn(3)], g.add(node{K: "between", Lo: 'a', Hi: 'c'}))
		if i%4 == 3 {
			sub = g.add(node{K: "any", C: []int{g.leafLit("abc"), g.leafLit("abb"), g.leafLit("aa"), g.leafLit("ab"), g.leafLit("ba"), g.leafLit("a"), g.leafLit("")}})
		}
		b, e := beg(sub)
		root := 0
		switch i % 6 {
		case 0:
			root = seq(b, g.leafLit("-"), e)
		case 1:
			root = one("many", seq(b, g.leafLit("-"), e, g.leafLit(";")))
		case 2:
			root = seq(b, one("past", seq(g.leafLit("-"), e)))
		case 3:
			root = seq(g.add(node{K: "any", C: []int{seq(b, g.leafLit("!")), seq(g.leafLit("-"), e)}}), one("opt", seq(g.leafLit("-"), e)))
		case 4:
			root = seq(one("at", b), one("to", g.leafLit("-")), g.leafLit("-"), e, one("zom", seq(g.leafLit("-"), e)))
		case 5:
			b2, e2 := beg(one("zom", g.add(node{K: "between", Lo: 'a', Hi: 'b'})))
			root = seq(b, g.leafLit("-"), b2, g.leafLit("-"), e, g.leafLit("-"), e2)
		}
		texts := []string{}
		for len(texts) < 12 {
			w := words[c.rnd.Intn(len(words))]
			v := w
			if c.rnd.Intn(2) == 0 {
				v = words[c.rnd.Intn(len(words))]
			}
			s := w + "-" + v
			switch c.rnd.Intn(5) {
			case 0:
				s += ";" + v + "-" + v + ";"
			case 1:
				s = "-" + v
			case 2:
				s += "-" + w + "-" + v
			case 3:
				s += "!-" + w
			}
			texts = append(texts, s)
		}
		g.reuse(c, []int{root}, texts, 24, modeReuse)
	}
}

// tails reads the same text after different words, with the end of a pair in
// readers of every kind.
func tails(c *ctx) {
	for _, k := range []string{"seq", "any", "opt", "many", "zom", "times", "skipseq", "at", "not", "to", "past", "body", "bodytail", "named", "map", "mon"} {
		for form := 0; form < c.n(3, 12); form++ {
			g := &gen{r: c.rnd, leafs: leafKinds}
			sub := g.add(node{K: "many", C: []int{g.add(node{K: "between", Lo: 'a', Hi: 'c'})}})
			b := g.add(node{K: "jbeg", W: "j", C: []int{sub}, N: 1})
			g.cells = []int{b}
			e := g.add(node{K: "jend", N: 1, W: "j"})
			in := e
			if form%3 == 1 {
				in = g.add(node{K: "any", C: []int{g.leafLit("!"), e}})
			} else if form%3 == 2 {
				in = g.add(node{K: "seq", C: []int{g.leafLit("-"), e}})
			}
			n := node{K: k, C: []int{in}}
			switch k {
			case "seq", "any":
				n.C = []int{in, g.leafLit("a")}
			case "times":
				n.N = 2
			case "skipseq":
				n.C = []int{g.add(node{K: "zom", C: []int{e}}), g.leafLit("-"), g.add(node{K: "opt", C: []int{e}})}
			case "body", "bodytail":
				n.C = []int{g.add(node{K: "zom", C: []int{g.add(node{K: "between", Lo: '!', Hi: 'z'})}}), in}
				if form >= 6 {
					n.C = []int{g.add(node{K: "zom", C: []int{in}}), g.leafLit("a")}
				}
			case "named", "mon":
				n.W = g.name("n")
			case "map":
				n.N = 1
				g.maps = 1
			}
			x := g.add(n)
			parts := []int{b, g.leafLit("|"), x}
			if c.rnd.Intn(2) == 0 {
				parts = append(parts, g.add(node{K: "opt", C: []int{x}}))
			}
			root := g.add(node{K: "seq", C: parts})
			rest := []string{"a-a", "-a-b-", "ab-ab", "-abc", "b", "-b-ab-", "a!-b"}
			texts := []string{}
			for _, t := range []string{rest[c.rnd.Intn(7)], rest[c.rnd.Intn(7)]} {
				for _, w := range []string{"c", "a", "b", "ab", "abc", "a", "cc"} {
					texts = append(texts, w+"|"+t)
				}
			}
			g.reuse(c, []int{root}, texts, 40, modeReuse)
		}
	}
}

// siblings builds readers with the same arguments by different constructors.
func siblings(c *ctx) {
	g := &gen{r: c.rnd, leafs: leafKinds}
	some := func() int { return int([]rune{'a', 'b', 'c', 'x', '_', 'z', '0', 0xe4}[c.rnd.Intn(8)]) }
	for i := 0; i < c.n(400, 5000); i++ {
		lo, hi := some(), some()
		if lo > hi && c.rnd.Intn(8) > 0 {
			lo, hi = hi, lo
		}
		rg := [][]int{{lo, hi}}
		if i%3 == 2 {
			rg = append(rg, []int{some(), some()})
		}
		str := []int{some(), some()}[:1+c.rnd.Intn(2)]
		text := ""
		for _, r := range str {
			text += string(rune(r))
		}
		leaf := func() int {
			switch c.rnd.Intn(14) {
			case 0, 1:
				return g.add(node{K: "set", RG: rg, Ctor: "BetweenAny"})
			case 2, 3:
				return g.add(node{K: "set", RG: rg, Ctor: "BuildBetweenAny"})
			case 4, 5, 6:
				return g.add(node{K: "set", RG: rg, Ctor: "Set", RS: []int{some(), some()}[:1+c.rnd.Intn(2)]})
			case 7:
				return g.add(node{K: "between", Lo: lo, Hi: hi})
			case 8:
				return g.add(node{K: "holey", Lo: lo, Hi: hi, RS: str})
			case 9:
				return g.add(node{K: "anyrune", RS: str})
			case 10:
				return g.add(node{K: "fold", S: bytesOf(text)})
			case 11:
				return g.add(node{K: "rune", N: str[0]})
			case 12:
				return g.add(node{K: "match", RS: []int{some()}, W: "check"})
			}
			return g.add(node{K: "lit", S: bytesOf(text)})
		}
		roots := []int{}
		for n := 2 + c.rnd.Intn(4); n > 0; n-- {
			x := leaf()
			switch c.rnd.Intn(9) {
			case 0:
				x = g.add(node{K: "times", N: 1 + c.rnd.Intn(3), C: []int{x}})
			case 1:
				x = g.add(node{K: []string{"many", "zom", "opt", "not", "at", "to", "past"}[c.rnd.Intn(7)], C: []int{x}})
			case 2:
				x = g.add(node{K: []string{"seq", "any"}[c.rnd.Intn(2)], C: []int{x, leaf()}})
			case 3:
				x = g.add(node{K: "named", W: "check", C: []int{x}})
			case 4:
				x = g.add(node{K: []string{"body", "bodytail"}[c.rnd.Intn(2)], C: []int{g.add(node{K: "zom", C: []int{x}}), leaf()}})
			}
			roots = append(roots, x)
		}
		texts := []string{text, text + text, string(rune(lo)), string(rune(hi)) + text, "_", "x", string(rune(lo+1)) + string(rune(hi)), "A", "abz0", "bca_"}
		g.reuse(c, roots, texts, 30, modeReuse)
	}
}

// within lets readers of every kind be used again while they read.
func within(watch []string, tr, obs string, apis []string) func(*ctx) {
	return func(c *ctx) {
		all := append([]string{"seq", "any", "opt", "many", "zom", "times", "skipseq", "at", "not", "to", "past", "body", "bodytail", "named", "rule"}, watch...)
		for _, k := range all {
			if k == "bodytail" && tr == "basket" { // see KF3
				continue
			}
			for form := 0; form < c.n(4, 12); form++ {
				g := &gen{r: c.rnd, leafs: leafKinds}
				lit := g.leafLit
				root := g.add(node{K: "rule", W: g.name("r"), C: []int{lit("x")}})
				n := node{K: k, C: []int{root}}
				open, end := "(", ")"
				if form%2 == 1 {
					end = "" // not closed
				}
				see := func(x int) int {
					if len(watch) == 0 || c.rnd.Intn(3) > 0 {
						return x
					}
					o := node{K: watch[c.rnd.Intn(len(watch))], W: g.name("o"), C: []int{x}}
					if o.K == "map" {
						g.maps++
						o.N = g.maps
					}
					if o.K == "pick" && !g.consumes(x) {
						return x
					}
					return g.add(o)
				}
				switch k {
				case "seq":
					n.C = []int{lit("a"), root, lit("b")}
				case "any":
					n.C = []int{g.add(node{K: "seq", C: []int{root, lit("a")}}), root, lit("b")}
				case "times":
					n.N = 2 + form%2
				case "skipseq":
					n.C = []int{g.add(node{K: "zom", C: []int{lit(" ")}}), root, lit("a"), root}
				case "body", "bodytail":
					n.C = []int{g.add(node{K: "zom", C: []int{g.add(node{K: "any", C: []int{root, lit("a")}})}}), lit(")")}
				case "named", "mon", "pick":
					n.W = g.name("s")
				case "rule":
					n.W = g.name("r")
				case "map":
					g.maps++
					n.N = g.maps
				}
				x := g.add(n)
				cs := []int{see(lit(open)), x}
				if end != "" {
					cs = append(cs, lit(end))
				}
				y := g.add(node{K: "any", C: []int{see(g.add(node{K: "seq", C: cs})), see(lit("x")), see(lit("y"))}})
				if (k == "mon" || k == "map" || k == "pick" || k == "named") && form >= 2 {
					// the observed reader itself, not the rule in it
					g.nodes[x-1].C = []int{see(root)}
				}
				g.nodes[root-1].C = []int{y}
				row := &readRow{Kind: "read", N: g.nodes, Root: []int{root}, Tr: tr, Obs: obs}
				texts := []string{}
				var word func(d int) string
				word = func(d int) string {
					if d == 0 || c.rnd.Intn(6) == 0 {
						return []string{"x", "y"}[c.rnd.Intn(2)]
					}
					w := func() string { return word(d - 1) }
					s := ""
					switch k {
					case "seq":
						s = "a" + w() + "b"
					case "any":
						s = []string{w() + "a", w(), "b"}[c.rnd.Intn(3)]
					case "times", "many", "zom", "opt":
						for i := c.rnd.Intn(4); i >= 0; i-- {
							s += w()
						}
					case "skipseq":
						s = strings.Repeat(" ", c.rnd.Intn(3)) + w() + "a" + strings.Repeat(" ", c.rnd.Intn(3)) + w()
					case "to", "past", "not":
						s = []string{"a", "(", "", "b"}[c.rnd.Intn(4)] + w()
					case "body", "bodytail":
						s = []string{"a", "", "aa"}[c.rnd.Intn(3)] + w() + []string{"a", "", "x"}[c.rnd.Intn(3)]
					default:
						s = w()
					}
					return open + s + end
				}
				for len(texts) < 14 {
					d := 1 + c.rnd.Intn(4)
					if k == "any" && d > 2 { // read twice at every level
						d = 2
					}
					s := word(d)
					if len(s) > 60 {
						s = s[:60]
					}
					if c.rnd.Intn(3) == 0 {
						i := c.rnd.Intn(len(s) + 1)
						s = s[:i] + []string{"", "x", "(", ")", "a"}[c.rnd.Intn(5)] + s[i:]
					}
					texts = append(texts, s)
				}
				for i, s := range texts {
					row.TX = append(row.TX, bytesOf(s))
					row.Runs = append(row.Runs, readRun{I: 1, T: i + 1, API: apis[c.rnd.Intn(len(apis))], Mode: b2i(tr == "none" && i > 0), Rst: 1, PN: c.rnd.Intn(6) - 1})
				}
				c.emit(row)
			}
		}
	}
}

// giveups puts readers that read something and then take another way into
// every place where a reader can be.
func giveups(watch []string, tr, obs string, apis []string) func(*ctx) {
	places := []string{"seq", "last", "any", "second", "opt", "many", "zom", "times", "skipped", "skipping", "at", "not", "to", "past", "body", "tail", "bodytail", "tail+", "named", "rule", "wrap"}
	return func(c *ctx) {
		for _, place := range append(places, watch...) {
			if place == "bodytail" && tr == "basket" { // see KF3
				continue
			}
			for form := 0; form < 9; form++ {
				tries := 6
				for again := c.n(1, 3); again > 0; again-- {
					g := &gen{r: c.rnd, leafs: leafKinds}
					lit := g.leafLit
					see := func(x int) int {
						if len(watch) == 0 {
							return x
						}
						o := node{K: watch[c.rnd.Intn(len(watch))], W: g.name("o"), C: []int{x}}
						if o.K == "map" {
							g.maps++
							o.N = g.maps
						}
						return g.add(o)
					}
					of := func(k string, cs ...int) int {
						n := node{K: k, C: cs}
						switch k {
						case "times":
							n.N = 2
						case "named", "rule", "wrap", "pick", "mon":
							n.W = g.name(k)
						case "map":
							g.maps++
							n.N = g.maps
						}
						return g.add(n)
					}
					a, ab := see(lit("a")), lit("ab")
					if c.rnd.Intn(2) == 0 {
						ab = see(ab)
					}
					var x int
					good := []string{"ab"}
					switch form {
					case 0:
						x = of("any", of("seq", a, lit("c")), ab)
						good = append(good, "ac")
					case 1:
						x = of("seq", of("opt", of("seq", a, lit("c"))), ab)
						good = append(good, "acab")
					case 2:
						x = of("seq", of("zom", of("seq", a, lit("c"))), ab)
						good = append(good, "acacab")
					case 3:
						x = of("seq", of("at", see(of("seq", a, lit("b")))), ab)
					case 4:
						x = of("any", of("times", see(of("any", ab, a))), ab)
						good = append(good, "aab", "abab")
					case 5:
						x = of("any", see(of("seq", of("many", a), lit("c"))), of("seq", of("many", a), lit("b")))
						good = append(good, "aaab", "aac")
					case 6:
						x = of("any", of("seq", of("to", see(lit("b"))), lit("c")), of("past", see(lit("b"))))
						good = append(good, "aab")
					case 7:
						x = of("any", of("seq", of("body", see(of("many", a)), lit("b")), lit("c")), ab)
						good = append(good, "aab")
					case 8:
						x = of("seq", of("not", of("seq", a, lit("c"))), see(lit("b")))
						good = append(good, "acb")
					}
					w := func() string { return good[c.rnd.Intn(len(good))] }
					root, pre, post, more := x, "", "", 1
					switch place {
					case "seq":
						root, post = of("seq", x, see(lit("d"))), "d"
					case "last":
						root, pre = of("seq", see(lit("d")), x), "d"
					case "any":
						root = of("any", x, see(lit("a")))
					case "second":
						root = of("any", see(lit("ad")), x)
					case "many", "zom", "times":
						root, more = of(place, x), 2
					case "skipped":
						root, pre, more = of("skipseq", of("zom", lit("-")), x, x), "-", 2
					case "skipping":
						root, pre, post = of("skipseq", x, see(lit("d")), see(lit("e"))), w()+"d", "e"
					case "to", "past":
						root, pre = of(place, x), []string{"", "d", "ad", "a", "b"}[c.rnd.Intn(5)]
					case "body", "bodytail":
						root, post = of(place, x, see(lit(";"))), ";"
					case "tail", "tail+":
						pre = []string{"", "d", "dd"}[c.rnd.Intn(3)]
						k := "body"
						if place == "tail+" {
							k = "bodytail"
						}
						body := lit(pre)
						if tr != "basket" || place == "tail" {
							body = see(body)
						}
						root = of(k, body, x)
					default:
						root = of(place, x)
					}
					if c.rnd.Intn(2) == 0 { // after, and before, something
						root = of("seq", see(lit("_")), root, of("opt", see(lit("_"))))
						pre, post = "_"+pre, post+"_"
					} else if c.rnd.Intn(2) == 0 { // and given up itself
						root = of("any", of("seq", see(root), lit("!")), see(lit("a")), root)
					}
					if tr == "basket" && hasEmptyPick(g) {
						if tries--; tries > 0 {
							again++
						}
						continue
					}
					row := &readRow{Kind: "read", N: g.nodes, Root: []int{root}, Tr: tr, Obs: obs}
					texts := []string{pre + w() + post}
					for len(texts) < 9 {
						s := pre
						for n := more; n > 0; n-- {
							s += w()
						}
						s += post
						switch c.rnd.Intn(4) {
						case 0:
							s = g.mutate(s)
						case 1:
							s += []string{"!", "_", w(), ";", "d"}[c.rnd.Intn(5)]
						}
						texts = append(texts, s)
					}
					for i, s := range texts {
						row.TX = append(row.TX, bytesOf(s))
						row.Runs = append(row.Runs, readRun{I: 1, T: i + 1, API: apis[c.rnd.Intn(len(apis))], Mode: b2i(tr == "none" && i > 0), Rst: 1, PN: c.rnd.Intn(6) - 1})
					}
					c.emit(row)
				}
			}
		}
	}
}

// hasEmptyPick tells whether a picked reader can read nothing.
func hasEmptyPick(g *gen) bool {
	for _, n := range g.nodes {
		if n.K == "pick" && !g.consumes(n.C[0]) {
			return true
		}
	}
	return false
}

// middles picks many segments and moves the scanner into one of them.
func middles(c *ctx) {
	for _, n := range []int{3, 10, 20, 40, 70, c.n(140, 300)} {
		for form := 0; form < 4; form++ {
			g := &gen{r: c.rnd, leafs: leafKinds}
			pick := func(x int) int { return g.add(node{K: "pick", W: g.name("p"), C: []int{x}}) }
			one := pick(g.leafLit("abc"))
			text := strings.Repeat("abc", n)
			switch form {
			case 1: // picks in picks
				one = pick(g.add(node{K: "seq", C: []int{pick(g.leafLit("ab")), g.leafLit("c")}}))
			case 2:
				one = g.add(node{K: "any", C: []int{pick(g.leafLit("abcabc")), pick(g.leafLit("abc"))}})
			}
			root := g.add(node{K: []string{"many", "zom"}[form%2], C: []int{one}})
			if form == 3 {
				root = pick(root)
			}
			row := &readRow{Kind: "read", N: g.nodes, Root: []int{root}, Tr: "basket", TX: [][]int{bytesOf(text)}}
			for i := 0; i < 12; i++ {
				run := readRun{I: 1, T: 1, API: plainAPIs[c.rnd.Intn(3)], Mode: 3, PN: -1}
				switch i {
				case 0:
					run.Mode = 0
				case 1:
					run.At = len(text) - 1
				case 2:
					run.At = len(text) - 4
				default:
					run.At = c.rnd.Intn(len(text) + 1)
					if c.rnd.Intn(2) == 0 {
						run.At -= run.At % 3
					}
				}
				row.Runs = append(row.Runs, run)
			}
			c.emit(row)
		}
	}
}

func uniq(l []string) []string {
	seen := map[string]bool{}
	res := []string{}
	for _, s := range l {
		if !seen[s] {
			seen[s] = true
			res = append(res, s)
		}
	}
	return res
}

// and makes the rows of several suites.
func and(f func(*ctx), more ...func(*ctx)) func(*ctx) {
	return func(c *ctx) {
		f(c)
		for _, m := range more {
			m(c)
		}
	}
}

func init() {
	withBig := func(watch []string, tr, obs string, apis []string, f func(*ctx)) func(*ctx) {
		return func(c *ctx) {
			f(c)
			big(c, watch, tr, obs, apis, b2i(tr == "none"))
			within(uniq(watch), tr, obs, apis)(c)
			giveups(uniq(watch), tr, obs, apis)(c)
		}
	}
	withSmall := func(kinds []string, tr, obs string, f func(*ctx)) func(*ctx) {
		return func(c *ctx) {
			small(c, uniq(kinds), tr, obs)
			f(c)
		}
	}
	depth := func(c *ctx, i int) int { return 2 + i%3 }
	plain := func(c *ctx, i int, kinds, leafs []string) readOpts {
		return readOpts{kinds: kinds, leafs: leafs, apis: plainAPIs, tr: "none", readers: 1, depth: depth(c, i), mode: modeMixed, rules: 5, runs: 10}
	}
	pegLeafs := cat(leafKinds, leafKinds, valueKinds)
	suites["C11"] = withBig(nil, "none", "", plainAPIs, withSmall(peg, "none", "", readSuite(1500, 20000, func(c *ctx, i int) readOpts {
		return plain(c, i, peg, pegLeafs)
	})))
	lookLeafs := cat(leafKinds, []string{"atend"})

	suites["C12"] = and(withBig(nil, "none", "", plainAPIs, withSmall(look, "none", "", readSuite(1500, 20000, func(c *ctx, i int) readOpts {
		return plain(c, i, cat(look, look, peg), lookLeafs)
	}))), searches, cuts)
	everything := cat(peg, look, []string{"jbeg", "map", "mon", "named", "pick"})
	allLeafs := cat(leafKinds, leafKinds, valueKinds, []string{"atend", "atend", "jend", "jend", "wrap", "wrap", "wrap", "invalid"})
	suites["C10"] = withBig(nil, "none", "", allAPIs, withSmall(cat(peg, look), "none", "", readSuite(1800, 20000, func(c *ctx, i int) readOpts {
		o := plain(c, i, everything, allLeafs)
		o.apis = allAPIs
		o.user = 4
		o.tr = []string{"none", "basket", "rec"}[i%3]
		return o
	})))
	suites["C13"] = withBig(nil, "none", "", plainAPIs, withSmall(cat(peg, look), "none", "", readSuite(1500, 20000, func(c *ctx, i int) readOpts {
		o := plain(c, i, everything, allLeafs)
		o.tr = []string{"none", "basket", "rec"}[i%3]
		o.empty = 2
		return o
	})))
	suites["C14"] = withBig(nil, "none", "", errAPIs, withSmall(cat(peg, look), "none", "", readSuite(1800, 20000, func(c *ctx, i int) readOpts {
		o := plain(c, i, cat(peg, peg, []string{"any", "any", "any"}, look, []string{"jbeg", "map", "mon", "named"}), allLeafs)
		o.apis = errAPIs
		return o
	})))
	suites["C15"] = and(withBig(nil, "none", "", plainAPIs, readSuite(2000, 24000, func(c *ctx, i int) readOpts {
		o := plain(c, i, cat(peg, []string{"jbeg", "jbeg", "jbeg"}, look), cat(leafKinds, []string{"jend", "jend", "jend", "jend", "jend", "jend", "jend"}))
		o.mode = modeMixed
		o.depth = 3 + i%2
		return o
	})), pairs, tails)
	suites["C16"] = withBig([]string{"pick"}, "basket", "", plainAPIs, withSmall(cat(peg, look, []string{"pick"}), "basket", "", readSuite(2000, 24000, func(c *ctx, i int) readOpts {
		o := plain(c, i, cat(peg, peg, look, []string{"pick", "pick", "pick", "pick", "pick", "pick"}), lookLeafs)
		o.tr = "basket"
		o.depth = 3 + i%3
		o.mode = func(r *rand.Rand) int { return []int{0, 0, 2, 3}[r.Intn(4)] }
		o.empty = 40
		o.rules = 3
		return o
	})))
	suites["C16"] = and(suites["C16"], middles)
	suites["C17"] = withBig([]string{"map", "map", "pick", "mon", "named"}, "none", "strip", plainAPIs, withSmall([]string{"map", "pick", "mon", "named", "seq", "any", "opt", "many", "zom", "times"}, "none", "strip", readSuite(1500, 20000, func(c *ctx, i int) readOpts {
		o := plain(c, i, cat(peg, look, []string{"map", "map", "map", "map", "pick", "mon", "named"}), lookLeafs)
		o.obs = "strip"
		o.tr = []string{"none", "basket"}[i%2]
		o.rules = 3
		return o
	})))
	suites["C18"] = withBig([]string{"mon"}, "none", "print", plainAPIs, readSuite(1200, 15000, func(c *ctx, i int) readOpts {
		o := plain(c, i, cat(peg, look, []string{"mon", "mon", "mon", "mon", "mon", "mon"}), lookLeafs)
		o.obs = "print"
		o.rst = true
		o.rules = 3
		return o
	}))
	suites["C28"] = and(withBig(nil, "none", "", errAPIs, readSuite(1500, 20000, func(c *ctx, i int) readOpts {
		o := plain(c, i, cat(peg, look, []string{"map", "mon", "named"}), lookLeafs)
		if i%3 == 0 {
			o.kinds, o.leafs = cat(o.kinds, []string{"jbeg", "jbeg"}), cat(o.leafs, []string{"jend", "jend", "jend", "jend"})
		}
		o.readers = 1 + i%3
		o.mode = modeReuse
		o.apis = errAPIs
		o.runs = 16
		return o
	})), siblings, pairs, tails)
	suites["C29read"] = withBig(nil, "rec", "", allAPIs, readSuite(1000, 12000, func(c *ctx, i int) readOpts {
		o := plain(c, i, cat(peg, look, look, []string{"map", "jbeg"}), allLeafs)
		o.tr = "rec"
		o.apis = allAPIs
		return o
	}))
	suites["C31"] = withBig(nil, "none", "", allAPIs, readSuite(1500, 15000, func(c *ctx, i int) readOpts {
		o := plain(c, i, cat(peg, look), lookLeafs)
		o.apis = allAPIs
		o.user = 6
		return o
	}))
	suites["C24"] = func(c *ctx) {
		small(c, uniq(cat(peg, look)), "none", "what")
		big(c, nil, "none", "what", plainAPIs, 1)
		kinds := cat(peg, look, []string{"jbeg", "map", "mon", "named", "pick"})
		leafs := cat(leafKinds, leafKinds, valueKinds, []string{"atend", "jend", "wrap"})
		for i := 0; i < c.n(2500, 30000); i++ {
			o := plain(c, i, kinds, leafs)
			if i%2 == 0 {
				o.leafs = cat(leafs, []string{"invalid", "invalid", "invalid"})
			}
			o.readers = 1 + i/2%4
			row := readCase(c, o)
			row.Runs = nil
			c.emit(row)
		}
		for _, w := range []string{"::INVALID-READER:", ":INVALID-READER::", "INVALID-READER", "::invalid-reader::", "::INVALID_READER::", ":: INVALID-READER ::", "::INVALID-READER ::", "::INVALID-READER", "INVALID-READER::", "::INVALID::READER::", "::INVALID-READER:\n:", "::INVALIDREADER::", "::Invalid-Reader::"} {
			for _, k := range []string{"named", "seq", "any"} {
				l := []node{{K: "lit", S: bytesOf("a")}, {K: "named", W: w, C: []int{1}}}
				if k != "named" {
					l = append(l, node{K: k, C: []int{2, 1, 2}})
				}
				c.emit(&readRow{Kind: "read", N: l, Root: []int{len(l)}, Tr: "none"})
			}
		}
		for _, ctor := range invalidCtors {
			for n := 0; n < 6; n++ {
				row := &readRow{Kind: "read", N: []node{{K: "invalid", Ctor: ctor, N: n}}, Root: []int{1}, Tr: "none"}
				for _, s := range allTexts([]string{"a", "b", "c", " ", "-"}, c.n(2, 3)) {
					row.TX = append(row.TX, bytesOf(s))
					row.Runs = append(row.Runs, readRun{I: 1, T: len(row.TX), API: plainAPIs[n%3], Mode: 1})
				}
				c.emit(row)
			}
		}
	}
}
