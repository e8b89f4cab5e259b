package main

import (
	"math/rand"
	"sort"
	"strings"

	"github.com/aiq/tok"
)

// seg is a segment as <<info, from, to>>.
type seg [3]interface{}

func mkSeg(info string, a, b int) seg { return seg{info, a, b} }

func (s seg) tok() tok.Segment {
	num := func(i interface{}) tok.Marker {
		switch v := i.(type) {
		case float64:
			return tok.Marker(v)
		case int:
			return tok.Marker(v)
		}
		return 0
	}
	return tok.Segment{Info: s[0].(string), Token: tok.MakeToken(num(s[1]), num(s[2]))}
}
func segOf(s tok.Segment) seg {
	a, b := ends(s.Token)
	return seg{s.Info, a, b}
}
func toks(l []seg) []tok.Segment {
	res := []tok.Segment{}
	for _, s := range l {
		res = append(res, s.tok())
	}
	return res
}
func segsOf(l []tok.Segment) []seg {
	res := []seg{}
	for _, s := range l {
		res = append(res, segOf(s))
	}
	return res
}

// ----------------------------------------------------------------------- C19
type tokenGot struct {
	Txt   string   `json:"txt"`
	Len   int      `json:"len"`
	Rel   []int    `json:"rel"`
	Merge string   `json:"merge"`
	Split []string `json:"split"`
	Parts []string `json:"parts"` // of a segment with the info "i", and the segment
}
type tokenRow struct {
	Kind  string   `json:"kind"`
	M     []int    `json:"m"`
	Got   tokenGot `json:"got"`
	Panic int      `json:"panic"`
}

func (r *tokenRow) run() {
	r.Got = tokenGot{Rel: []int{}, Split: []string{}, Parts: []string{}}
	r.Panic = b2i(guard(func() {
		t := tok.MakeToken(tok.Marker(r.M[0]), tok.Marker(r.M[1]))
		u := tok.MakeToken(tok.Marker(r.M[2]), tok.Marker(r.M[3]))
		a, b := t.Split(u)
		v := tok.Segment{Info: "i", Token: t}
		x, y := v.Split(tok.Segment{Info: "s", Token: u})
		r.Got = tokenGot{Txt: t.String(), Len: clip(t.Len()),
			Rel:   []int{b2i(t.Before(u)), b2i(t.After(u)), b2i(t.Covers(u)), b2i(t.Clashes(u))},
			Merge: t.Merge(u).String(), Split: []string{a.String(), b.String()}, Parts: []string{x.String(), y.String(), v.String()}}
	}))
}

// ----------------------------------------------------------------------- C20
type graphStep struct {
	Seg   seg           `json:"seg"`
	OK    int           `json:"ok"`
	Tree  []interface{} `json:"tree"`
	Leafs []seg         `json:"leafs"`
	Flame []string      `json:"flame"`
}
type graphRow struct {
	Kind  string        `json:"kind"`
	Name  string        `json:"name"`
	Segs  []seg         `json:"segs"`
	Oth   []seg         `json:"oth"`
	Every int           `json:"every"` // which steps show the graph, 0 for all
	Empty []interface{} `json:"empty"`
	Steps []graphStep   `json:"steps"`
	Built []interface{} `json:"built"`
	Other []interface{} `json:"other"`
	Eq    []int         `json:"eq"`
	Panic int           `json:"panic"`
}

func treeOf(n *tok.Node, depth int) []interface{} {
	subs := []interface{}{}
	if depth < 100 {
		for _, x := range n.Nodes {
			subs = append(subs, treeOf(x, depth+1))
		}
	}
	a, b := ends(n.Token)
	return []interface{}{n.Info, a, b, subs}
}

func (r *graphRow) run() {
	r.Steps, r.Eq = []graphStep{}, []int{}
	r.Built, r.Other = []interface{}{}, []interface{}{}
	r.Panic = b2i(guard(func() {
		g := tok.NewGraph(r.Name)
		r.Empty = treeOf(g.Root, 0)
		for i, s := range r.Segs {
			tick()
			h, ok := g.Append(s.tok())
			if h != nil {
				g = h
			}
			if r.Every > 0 && (i+1)%r.Every != 0 && i+1 < len(r.Segs) {
				r.Steps = append(r.Steps, graphStep{Seg: s, OK: b2i(ok), Tree: []interface{}{}, Leafs: []seg{}, Flame: []string{}})
				continue
			}
			r.Steps = append(r.Steps, graphStep{Seg: s, OK: b2i(ok), Tree: treeOf(g.Root, 0), Leafs: segsOf(g.Leafs()),
				Flame: strings.Split(strings.TrimSuffix(g.FlameStack(), "\n"), "\n")})
		}
		b := tok.BuildGraph(r.Name, toks(r.Segs))
		r.Built = treeOf(b.Root, 0)
		o := tok.BuildGraph(r.Name, toks(r.Oth))
		r.Other = treeOf(o.Root, 0)
		r.Eq = []int{b2i(g.Equal(b)), b2i(g.Equal(o))}
	}))
}

// ----------------------------------------------------------------------- C21
type sortRow struct {
	Kind  string   `json:"kind"`
	Segs  []seg    `json:"segs"`
	By    int      `json:"by"`
	Order []string `json:"order"`
	Got   []seg    `json:"got"`
	Panic int      `json:"panic"`
}

func (r *sortRow) run() {
	r.Got = []seg{}
	r.Panic = b2i(guard(func() {
		l := toks(r.Segs)
		if r.By == 1 {
			tok.SortSegmentsByOrder(l, r.Order)
		} else {
			tok.SortSegments(l)
		}
		r.Got = segsOf(l)
	}))
}

// ----------------------------------------------------------------------- C22
type segmentateRow struct {
	Kind  string `json:"kind"`
	Seg   seg    `json:"seg"`
	Sca   int    `json:"sca"` // the text of a scanner
	Segs  []seg  `json:"segs"`
	Err   int    `json:"err"`
	Got   []seg  `json:"got"`
	Known []int  `json:"known"`
	Panic int    `json:"panic"`
}

func (r *segmentateRow) run() {
	r.Got, r.Known = []seg{}, []int{}
	r.Panic = b2i(guard(func() {
		var res []tok.Segment
		var err error
		given := toks(r.Segs)
		if r.Sca == 1 {
			s := tok.NewScanner(strings.Repeat("x", r.Seg.tok().Len()))
			s.Move(r.Seg.tok().Len() / 2)
			res, err = s.Segmentate(given)
		} else {
			res, err = r.Seg.tok().Segmentate(given)
		}
		r.Err = b2i(err != nil)
		r.Got = segsOf(res)
		for _, x := range res {
			r.Known = append(r.Known, b2i(x.Known()))
		}
	}))
}

func someSeg(r *rand.Rand, infos []string, max int) seg {
	a := r.Intn(max + 1)
	b := a
	switch r.Intn(5) {
	case 0, 1:
		b = a + r.Intn(4)
	case 2, 3:
		b = r.Intn(max + 1)
	}
	if b < a {
		a, b = b, a
	}
	if b > max {
		b = max
	}
	return mkSeg(infos[r.Intn(len(infos))], a, b)
}

func someSegs(r *rand.Rand, infos []string, max, n int) []seg {
	res := []seg{}
	for i := 0; i < n; i++ {
		if len(res) > 0 && r.Intn(5) == 0 {
			s := res[r.Intn(len(res))]
			if r.Intn(2) == 0 {
				s[0] = infos[r.Intn(len(infos))]
			}
			res = append(res, s)
			continue
		}
		res = append(res, someSeg(r, infos, max))
	}
	return res
}

// nested makes segments of a forest, in a random order, and now and then one
// that clashes.
func nestedSegs(r *rand.Rand, infos []string, max, n int) []seg {
	res := []seg{}
	var rec func(a, b, depth int)
	rec = func(a, b, depth int) {
		if depth == 0 || len(res) >= n {
			return
		}
		for x := a + r.Intn(2); x <= b && len(res) < n; {
			y := x + r.Intn(b-x+1)
			res = append(res, mkSeg(infos[r.Intn(len(infos))], x, y))
			if r.Intn(4) == 0 {
				res = append(res, mkSeg(infos[r.Intn(len(infos))], x, y))
			}
			rec(x, y, depth-1)
			x = y + r.Intn(3)
			if x == y && r.Intn(2) == 0 {
				break
			}
		}
	}
	rec(0, max, 4)
	r.Shuffle(len(res), func(i, j int) { res[i], res[j] = res[j], res[i] })
	for i := r.Intn(3); i > 0; i-- {
		k := r.Intn(len(res) + 1)
		res = append(res[:k], append([]seg{someSeg(r, infos, max)}, res[k:]...)...)
	}
	return res
}

// allSegs lists the tokens over 0..max.
func allSegs(max int) [][2]int {
	res := [][2]int{}
	for a := 0; a <= max; a++ {
		for b := a; b <= max; b++ {
			res = append(res, [2]int{a, b})
		}
	}
	return res
}

// lists makes every list of up to n segments over 0..max with the infos.
func lists(max, n int, info func(k int) []string, f func([]seg)) {
	cur := []seg{}
	var rec func()
	rec = func() {
		f(append([]seg{}, cur...))
		if len(cur) == n {
			return
		}
		for _, t := range allSegs(max) {
			for _, i := range info(len(cur)) {
				cur = append(cur, mkSeg(i, t[0], t[1]))
				rec()
				cur = cur[:len(cur)-1]
			}
		}
	}
	rec()
}

func init() {
	kinds["token"] = func() row { return &tokenRow{} }
	kinds["graph"] = func() row { return &graphRow{} }
	kinds["sort"] = func() row { return &sortRow{} }
	kinds["segmentate"] = func() row { return &segmentateRow{} }
	names := []string{"a", "b", "c", "d", "e", "f", "g", "h"}
	suites["C19"] = func(c *ctx) {
		n := c.n(6, 9)
		for w := 0; w <= n; w++ {
			for x := 0; x <= n; x++ {
				for y := 0; y <= n; y++ {
					for z := 0; z <= n; z++ {
						c.emit(&tokenRow{Kind: "token", M: []int{w, x, y, z}})
					}
				}
			}
		}
		for i := 0; i < c.n(500, 5000); i++ {
			m := []int{}
			for k := 0; k < 4; k++ {
				if k > 0 && c.rnd.Intn(3) == 0 {
					m = append(m, m[c.rnd.Intn(k)]+c.rnd.Intn(3))
				} else {
					m = append(m, c.rnd.Intn(1000000))
				}
			}
			c.emit(&tokenRow{Kind: "token", M: m})
		}
	}
	suites["C20"] = func(c *ctx) {
		graph := func(segs []seg) {
			oth := append([]seg{}, segs...)
			switch c.rnd.Intn(4) {
			case 0:
				c.rnd.Shuffle(len(oth), func(i, j int) { oth[i], oth[j] = oth[j], oth[i] })
			case 1:
				if len(oth) > 0 {
					oth = oth[1:]
				}
			case 2:
				if len(oth) > 0 {
					oth[c.rnd.Intn(len(oth))] = someSeg(c.rnd, names, 6)
				}
			}
			c.emit(&graphRow{Kind: "graph", Name: []string{"root", "", "a"}[c.rnd.Intn(3)], Segs: segs, Oth: oth})
		}
		lists(3, c.n(3, 4), func(k int) []string { return names[k : k+1] }, graph)
		for i := 0; i < c.n(1500, 20000); i++ {
			switch i % 3 {
			case 0:
				graph(someSegs(c.rnd, names, 3+c.rnd.Intn(12), c.rnd.Intn(9)))
			case 1:
				graph(someSegs(c.rnd, names, 60, c.rnd.Intn(7)))
			default:
				graph(nestedSegs(c.rnd, names, 4+c.rnd.Intn(16), 1+c.rnd.Intn(14)))
			}
		}
		for i := 0; i < c.n(12, 120); i++ { // large and deep ones
			switch i % 3 {
			case 0:
				graph(nestedSegs(c.rnd, names, 100+c.rnd.Intn(900), 25+c.rnd.Intn(20)))
			case 1:
				l := []seg{}
				for k := 0; k < 25; k++ {
					l = append(l, mkSeg(names[k%8], k, 60-k-c.rnd.Intn(2)))
				}
				c.rnd.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
				graph(l)
			default:
				l := []seg{}
				for k := 0; k < 30; k++ {
					l = append(l, mkSeg(names[k%8], 3*k, 3*k+c.rnd.Intn(4)))
				}
				c.rnd.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
				for k := 0; k < 5; k++ {
					a := c.rnd.Intn(50)
					l = append(l, mkSeg("z", a, a+10+c.rnd.Intn(40)))
				}
				graph(l)
			}
		}
		large := []int{70, 140, 320}
		if c.thorough {
			large = append(large, 65, 129, 200, 257, 520)
		}
		for _, n := range large {
			shuffled := func(l []seg) {
				if c.rnd.Intn(3) > 0 {
					c.rnd.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
				}
				c.emit(&graphRow{Kind: "graph", Name: "root", Segs: l, Oth: append([]seg{}, l[:len(l)-1]...), Every: len(l)/3 + 1})
			}
			side, nest, two := []seg{}, []seg{}, []seg{}
			for k := 0; k < n; k++ {
				side = append(side, mkSeg(names[k%8], 4*k, 4*k+1+c.rnd.Intn(4)))
				if k < 95 {
					nest = append(nest, mkSeg(names[k%8], k, 5000-k-c.rnd.Intn(2)))
				}
				two = append(two, mkSeg(names[k%8], k/2*10, k/2*10+9-5*(k%2)))
			}
			shuffled(append(side, mkSeg("z", 3, 9), mkSeg("y", 0, 4*n), mkSeg("x", 8, 4*n/2+2)))
			shuffled(nest)
			shuffled(two)
			shuffled(nestedSegs(c.rnd, names, 20*n, n))
		}
	}
	orders := func(r *rand.Rand) []string {
		l := append([]string{}, names[:5]...)
		r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
		return l[:r.Intn(5)]
	}
	suites["C21"] = func(c *ctx) {
		lists(2, 3, func(k int) []string { return names[:2] }, func(s []seg) {
			c.emit(&sortRow{Kind: "sort", Segs: s, By: len(s) % 2, Order: [][]string{{"a", "b"}, {"b", "a"}, {"a"}, {"b"}, {}}[c.rnd.Intn(5)]})
		})
		many := []string{}
		for i := 0; i < 330; i++ {
			many = append(many, "m"+string(rune('A'+i%26))+string(rune('a'+i/26)))
		}
		for _, n := range []int{330, c.n(600, 1100)} {
			c.emit(&sortRow{Kind: "sort", Segs: someSegs(c.rnd, names, 40, n), By: 0, Order: []string{}})
			for _, k := range []int{30, 80, 330} {
				o := append([]string{}, many[:k]...)
				c.rnd.Shuffle(k, func(i, j int) { o[i], o[j] = o[j], o[i] })
				c.emit(&sortRow{Kind: "sort", Segs: someSegs(c.rnd, many[:k], 4, n/3), By: 1, Order: o})
			}
		}
		for _, n := range []int{40, c.n(150, 300)} { // all lengths from one start, all starts of one length, all starts and one end
			for form := 0; form < 4; form++ {
				s := []seg{}
				for k := 0; k <= n; k++ {
					switch form {
					case 0:
						s = append(s, mkSeg(names[k%3], 7, 7+k))
					case 1:
						s = append(s, mkSeg(names[k%3], k, k+9))
					case 2:
						s = append(s, mkSeg(names[k%3], k, n))
					case 3:
						a := c.rnd.Intn(40)
						s = append(s, mkSeg(names[k%3], a*100, a*100+c.rnd.Intn(4000)))
					}
				}
				c.rnd.Shuffle(len(s), func(i, j int) { s[i], s[j] = s[j], s[i] })
				c.emit(&sortRow{Kind: "sort", Segs: s, By: c.rnd.Intn(2), Order: orders(c.rnd)})
			}
		}
		for i := 0; i < c.n(1500, 20000); i++ {
			n := c.rnd.Intn(8)
			if i%3 == 0 {
				n = 12 + c.rnd.Intn(30)
			}
			if i%150 == 0 {
				n = 60 + c.rnd.Intn(200)
			}
			var s []seg
			if i%2 == 0 {
				s = someSegs(c.rnd, names, 1+c.rnd.Intn(10), n)
			} else {
				s = nestedSegs(c.rnd, names, 3+c.rnd.Intn(20), n)
			}
			c.emit(&sortRow{Kind: "sort", Segs: s, By: c.rnd.Intn(2), Order: orders(c.rnd)})
		}
	}
	suites["C22"] = func(c *ctx) {
		put := func(a, b int, s []seg) {
			if a == 0 && c.rnd.Intn(2) == 0 {
				c.emit(&segmentateRow{Kind: "segmentate", Sca: 1, Seg: mkSeg("", 0, b), Segs: s})
			} else {
				c.emit(&segmentateRow{Kind: "segmentate", Seg: mkSeg([]string{"t", "", "v"}[c.rnd.Intn(3)], a, b), Segs: s})
			}
		}
		lists(3, 2, func(k int) []string { return []string{"v"} }, func(s []seg) {
			for _, t := range allSegs(3) {
				put(t[0], t[1], s)
			}
		})
		for _, n := range []int{70, 330, c.n(1100, 4200)} {
			s := []seg{}
			for k := 0; k < n; k++ {
				s = append(s, mkSeg(names[k%3], 5*k+c.rnd.Intn(3), 5*k+3+c.rnd.Intn(3)))
			}
			put(0, 5*n, s)
			put(0, 5*n+9, append(append([]seg{}, s...), mkSeg("a", 5*n, 5*n+8)))
			put(0, 5*n-1, append(append([]seg{}, s...), mkSeg("a", 5*n, 5*n+8)))
			bad := append([]seg{}, s...)
			bad[n-2], bad[n-1] = bad[n-1], bad[n-2]
			put(0, 5*n, bad)
		}
		for i := 0; i < c.n(2500, 30000); i++ {
			max := 2 + c.rnd.Intn(20)
			if i%100 == 0 {
				max = 100 + c.rnd.Intn(300)
			}
			a := c.rnd.Intn(3)
			b := a + c.rnd.Intn(max)
			s := []seg{}
			for p := a; c.rnd.Intn(6) > 0 || max > 90 && c.rnd.Intn(20) > 0; { // in order, most of the time
				x := p + c.rnd.Intn(3)*c.rnd.Intn(2)
				y := x + c.rnd.Intn(4)
				if y > b {
					break
				}
				s = append(s, mkSeg(names[c.rnd.Intn(3)], x, y))
				p = y
			}
			switch c.rnd.Intn(5) {
			case 0:
				if len(s) > 0 {
					s[c.rnd.Intn(len(s))] = someSeg(c.rnd, names, max)
				}
			case 1:
				if len(s) > 1 {
					k := c.rnd.Intn(len(s) - 1)
					s[k], s[k+1] = s[k+1], s[k]
				}
			case 2:
				sort.Slice(s, func(i, j int) bool { return s[i][0].(string) < s[j][0].(string) })
			}
			put(a, b, s)
		}
	}
}
