package main

import "strings"

// big makes expressions and texts that are far larger than those of the other
// cases: long texts, many parts, alternatives, repetitions, observations and
// levels.  watch are the kinds of observers to put around inner readers.
func big(c *ctx, watch []string, tr, obs string, apis []string, mode int) {
	sizes := []int{17, 34, 70, 135, 300, 1100}
	if c.thorough {
		sizes = append(sizes, 9, 33, 65, 100, 129, 200, 257, 400, 520, 2100)
	}
	for _, size := range sizes {
		for t := 0; t < 19; t++ {
			n := size
			if n > 300 && (t == 2 || t == 3 || t == 6) {
				n = 310
			}
			g := &gen{r: c.rnd, leafs: leafKinds}
			lit := func(s string) int { return g.leafLit(s) }
			node1 := func(k string, c ...int) int { return g.add(node{K: k, C: c}) }
			see := func(i int) int {
				if len(watch) == 0 {
					return i
				}
				x := node{K: watch[c.rnd.Intn(len(watch))], C: []int{i}}
				if x.K == "pick" && !g.consumes(i) {
					return i
				}
				if x.K == "map" {
					g.maps++
					x.N = g.maps
				} else {
					x.W = g.name("o")
				}
				return g.add(x)
			}
			rep := func(s string, n int) string { return strings.Repeat(s, n) }
			root := 0
			texts := []string{}
			deep := n
			if deep > 300 {
				deep = 300
			}
			at := []int{} // where the runs begin
			switch t {
			case 0:
				root = node1([]string{"many", "zom"}[n%2], see(lit("a")))
				texts = []string{rep("a", n), rep("a", n) + "b", rep("a", n/2) + "\u00e4" + rep("a", n/2)}
			case 1:
				cs, s := []int{}, ""
				for i := 0; i < n; i++ {
					x := []string{"a", "b", "ab", "\u00e4"}[i%4]
					cs, s = append(cs, see(lit(x))), s+x
				}
				root = node1("seq", cs...)
				texts = []string{s, s[:len(s)-2] + "x", s[:len(s)/2]}
			case 2:
				cs := []int{}
				alt := func(i int) string { return rep("a", i%20) + string(rune('b'+i/20)) }
				for i := 0; i < n; i++ {
					cs = append(cs, see(lit(alt(i))))
				}
				root = node1("any", cs...)
				texts = []string{alt(n - 1), alt(n/2) + "x", alt(n), "b", rep("a", 20) + "b", "ax"}
			case 3: // alternatives that fail at different depth
				cs := []int{}
				for i := 0; i < n/4; i++ {
					parts := []int{}
					for j := 0; j <= (i*7)%(n/4); j++ {
						parts = append(parts, lit("a"))
					}
					cs = append(cs, node1("seq", append(parts, see(lit("b")))...))
				}
				root = node1("any", cs...)
				texts = []string{rep("a", n), rep("a", 2) + "c", rep("a", n/8) + "b", "x"}
			case 4:
				root = g.add(node{K: "rule", W: g.name("r")})
				inner := node1("any", node1("seq", lit("("), root, lit(")")), see(lit("x")))
				g.nodes[root-1].C = []int{see(inner)}
				texts = []string{rep("(", deep) + "x" + rep(")", deep), rep("(", deep) + "x" + rep(")", deep-1), rep("(", deep) + rep(")", deep), rep("(", 9) + "x" + rep(")", 10)}
			case 5:
				root = g.add(node{K: "times", N: n, C: []int{see(lit("ab"))}})
				texts = []string{rep("ab", n), rep("ab", n-1) + "a", rep("ab", n+1)}
			case 6:
				ws := node1("zom", g.add(node{K: "anyrune", RS: []int{' ', '\r', '\n', '\t'}}))
				cs, s := []int{ws}, ""
				for i := 0; i < n/6; i++ {
					cs, s = append(cs, see(lit("a"))), s+rep(" \n\t", i%4)+"a"
				}
				root = node1("skipseq", cs...)
				texts = []string{s, s + rep(" ", n), rep(" ", n) + s, s[:len(s)-1] + "b", s[:len(s)-1]}
			case 7:
				root = node1([]string{"to", "past"}[n%2], see(lit("ab")))
				texts = []string{rep("a", n) + "b", rep("b\u00e4", n/2), rep("ba", n/2) + "a", rep("b", n) + "ab" + rep("ab", n/4)}
			case 8:
				root = node1([]string{"body", "bodytail"}[n%2], node1("zom", lit("a")), see(lit("ab")))
				texts = []string{rep("a", n) + "b", rep("a", n) + "bab", rep("a", n/2) + "b" + rep("a", n/2) + "ab", rep("a", n)}
			case 9:
				beg := g.add(node{K: "jbeg", W: "j", N: 1, C: []int{node1("many", g.add(node{K: "between", Lo: 'a', Hi: 'f'}))}})
				g.cells = []int{beg}
				end := g.add(node{K: "jend", W: "j", N: 1})
				root = node1("seq", beg, node1("past", end), see(end))
				key := rep("abcdef", n/6+1)[:n]
				texts = []string{key + " " + key[:n-1] + " " + key + key, key + "," + key + key[:n-1], key + key + "/" + key + key + key + key}
			case 10: // a long part that is given up, and read again
				a := see(lit("a"))
				root = node1("any", node1("seq", node1("many", a), lit("x")), node1("seq", node1("many", see(lit("a"))), lit("y")), node1("seq", node1("at", node1("many", a)), node1("zom", see(lit("aa")))))
				texts = []string{rep("a", n) + "x", rep("a", n) + "y", rep("a", n), rep("a", n) + "z"}
			case 11: // wrappers in wrappers
				root = lit("a")
				for i := 0; i < deep; i++ {
					switch i % 5 {
					case 0, 2:
						root = see(root)
					case 1:
						root = node1("seq", root, lit("b"))
					case 3:
						root = node1("any", lit("x"), root)
					case 4:
						root = node1("opt", root)
					}
				}
				texts = []string{"a" + rep("b", n), "a" + rep("b", deep/5), "x" + rep("b", deep/5), "a" + rep("b", 3) + "x", "xx"}
			case 12:
				s := rep("ab\u00e4k", n/5+1)
				fold := g.add(node{K: "fold", S: bytesOf(s)})
				root = node1("seq", see(lit(s)), fold, node1("any", node1("not", lit("q")), g.add(node{K: "atend"})))
				texts = []string{s + strings.ToUpper(s), s + strings.ToUpper(s) + "q", s + strings.ToUpper(s[:len(s)-1]) + "\u212a", s[:len(s)-1] + "K" + s, s + s + "\xff"}
			case 13, 16, 17, 18: // many runes in a set
				rs, s := []int{}, ""
				for i := 0; i < n; i++ {
					rs = append(rs, 0x4e00+3*i)
				}
				for _, i := range []int{0, n / 2, n - 1, n - 2} {
					s += string(rune(rs[i]))
				}
				rg := [][]int{}
				for i, r := range rs {
					if i < 320 {
						rg = append(rg, []int{r, r + i%2})
					}
				}
				var set int
				switch t {
				case 13:
					set = g.add(node{K: "anyrune", RS: rs})
				case 16:
					set = g.add(node{K: "holey", Lo: 0x4e00, Hi: 0x4e00 + 3*n + 9, RS: rs[:n/2+1]})
				case 17:
					set = g.add(node{K: "match", RS: rs, W: "check"})
				case 18:
					set = g.add(node{K: "set", RG: rg, Ctor: []string{"BetweenAny", "BuildBetweenAny"}[c.rnd.Intn(2)]})
				}
				root = node1("seq", node1("zom", see(set)), lit("."))
				last := string(rune(rg[len(rg)-1][1]))
				texts = []string{s + ".", "\u4e01.", rep(last, 3) + s[:3] + "\u4e02.", string(rune(rs[n-1]+1)) + ".", string(rune(rs[n-2]+1)) + ".", string(rune(rs[n/2])) + "."}
			case 14: // far from the start
				f := g.add(node{K: "wrap", N: 1, F: []string{"read", "other", ""}[c.rnd.Intn(3)], W: g.name("w"), C: []int{}})
				root = node1("any", node1("seq", see(lit("ab")), lit("c"), see(f)), node1("seq", lit("ab"), see(lit("c")), node1("many", g.add(node{K: "between", Lo: 'd', Hi: 'f'})), lit("x")))
				for i, s := range []string{"abcdefx", "abcdefy", "abcddd", "abx", "b"} {
					pre := rep([]string{"a", "ab", "\u00e4"}[i%3], n)
					texts = append(texts, pre+s+"abc")
					at = append(at, len(pre))
				}
			case 15: // a reader that is used again and again
				beg := g.add(node{K: "jbeg", W: "j", N: 1, C: []int{node1("many", g.add(node{K: "between", Lo: 'a', Hi: 'c'}))}})
				g.cells = []int{beg}
				root = node1("any", node1("seq", see(beg), lit("-"), g.add(node{K: "jend", W: "j", N: 1})), node1("seq", lit("a"), see(lit("b")), lit("/")))
				few := []string{"ab-ab", "ab/", "abc-abc", "b-", "a-b", "x"}
				for i := 0; i < n; i++ {
					texts = append(texts, few[(i*i+i/7)%len(few)])
				}
			}
			row := &readRow{Kind: "read", N: g.nodes, Root: []int{root}, Cells: g.cells, Tr: tr, Obs: obs}
			known := map[string]int{}
			for i, s := range texts {
				if known[s] == 0 {
					row.TX = append(row.TX, bytesOf(s))
					known[s] = len(row.TX)
				}
				run := readRun{I: 1, T: known[s], API: apis[c.rnd.Intn(len(apis))], Mode: mode, Rst: 1, PN: c.rnd.Intn(6) - 1}
				if i < len(at) {
					run.At = at[i]
				}
				if i == 1 && obs == "print" && n <= 300 {
					run.PN = n
				}
				if i == 0 {
					run.Mode = 0
				}
				row.Runs = append(row.Runs, run)
			}
			if obs == "what" {
				row.Runs = nil
			}
			c.emit(row)
		}
	}
}
