package main

import (
	"math"
	"math/rand"

	"github.com/aiq/tok"
)

// sessRow is a history of calls on one scanner.  S holds for every call the
// index of the op and, filled in by run: what it reported, Mark(), len(Head()),
// len(Tail()), whether Head()+Tail() is the text, AtStart(), AtEnd(), and the
// markers the coupled tracker was told.
type sessRow struct {
	Kind  string   `json:"kind"`
	T     []int    `json:"t"`
	Rev   int      `json:"rev"`   // made with NewRevScanner
	Track int      `json:"track"` // a tracker is coupled
	O     []op     `json:"o"`
	B     []sessSt `json:"b"` // state after creation (one entry)
	S     []sessSt `json:"s"`
}

type sessSt struct {
	O    int   `json:"o"`
	OK   int   `json:"ok"`
	M    int   `json:"m"`
	H    int   `json:"h"`
	L    int   `json:"l"`
	Eq   int   `json:"eq"`
	As   int   `json:"as"`
	Ae   int   `json:"ae"`
	Told []int `json:"told"`
	V    []int `json:"v"`
}

type recTracker struct {
	told []int
}

func (t *recTracker) Update(m tok.Marker) {
	if len(t.told) < 200 {
		t.told = append(t.told, clip(int(m)))
	} else {
		t.told[199] = clip(int(m))
	}
}

func observe(s *tok.Scanner, text string, st *sessSt) {
	st.M = clip(int(s.Mark()))
	st.H, st.L, st.Eq = -1, -1, 0
	guard(func() {
		h, t := s.Head(), s.Tail()
		st.H, st.L, st.Eq = len(h), len(t), b2i(h+t == text)
	})
	st.As, st.Ae = b2i(s.AtStart()), b2i(s.AtEnd())
}

func (r *sessRow) run() {
	text := strOf(r.T)
	var s *tok.Scanner
	if r.Rev == 1 {
		s = tok.NewRevScanner(text)
	} else {
		s = tok.NewScanner(text)
	}
	tr := &recTracker{}
	if r.Track == 1 {
		s.Tracker = tr
	}
	first := sessSt{OK: 1, Told: []int{}, V: []int{}}
	observe(s, text, &first)
	r.B = []sessSt{first}
	for i := range r.S {
		tick()
		st := &r.S[i]
		o := r.O[st.O-1]
		if o.N != nil && (*o.N >= 1000000000 || *o.N <= -1000000000) {
			n := math.MaxInt
			if *o.N < 0 {
				n = math.MinInt
			}
			o.N = &n
		}
		tr.told = []int{}
		ok, v := false, []int(nil)
		if guard(func() { ok, v = o.apply(s) }) {
			st.OK = 2
		} else {
			st.OK = b2i(ok)
		}
		if v == nil {
			v = []int{}
		}
		st.V = v
		st.Told = tr.told
		observe(s, text, st)
	}
}

func allOps(r *rand.Rand, text string) []op {
	res := []op{}
	for _, f := range []func(*rand.Rand, string) []op{opsC01, opsC01, opsC01, opsC02, opsC03, opsC04, opsC05, opsC06, opsC07} {
		res = append(res, f(r, text)...)
	}
	for _, n := range []int{1000000000, -1000000000} {
		res = append(res, opN("Move", n), opN("ToMarker", n), opN("MoveRunes", n))
	}
	res = append(res, opN("ScanString", 1000000000), opNum("ReadInt", 10, 8), opNum("ReadUint", 16, 64), opF("ReadBool", "*"), opN("LineCol", 4),
		opNum("IntReader", 8, 16), opNum("UintReader", 10, 8), opNum("ReadInt", 3, 8), opF("BoolReader", "q"))
	return res
}

func sessSuite(track bool) func(*ctx) {
	return func(c *ctx) {
		texts := allTexts(smallCells, c.n(2, 3))
		for i := c.n(700, 9000); i > 0; i-- {
			texts = append(texts, randText(c.rnd, 12))
		}
		for i := c.n(40, 400); i > 0; i-- {
			texts = append(texts, randText(c.rnd, 60))
		}
		texts = append(texts, "-12 true +99 -300 FALSE 0x1f", "12345678901234567890", "-", "+", "tru")
		for i, t := range texts {
			r := &sessRow{Kind: "sess", T: bytesOf(t), Rev: b2i(c.rnd.Intn(4) == 0), Track: b2i(track || i%2 == 0)}
			ops, used := allOps(c.rnd, t), map[int]int{}
			for j := 0; j < c.n(60, 120); j++ {
				x := c.rnd.Intn(len(ops))
				if used[x] == 0 {
					r.O = append(r.O, ops[x])
					used[x] = len(r.O)
				}
				r.S = append(r.S, sessSt{O: used[x]})
				if c.rnd.Intn(6) == 0 { // the same call again
					r.S = append(r.S, sessSt{O: used[x]})
				}
			}
			c.emit(r)
		}
	}
}

// mixed makes histories in which about half of the calls are of one property.
func mixed(ops func(*rand.Rand, string) []op, texts func(*ctx) []string) func(*ctx) {
	return func(c *ctx) {
		l := texts(c)
		for i := c.n(300, 3000); i > 0; i-- {
			t := l[c.rnd.Intn(len(l))]
			if i%2 == 0 {
				t = randText(c.rnd, 20)
			}
			if len(t) > 150 {
				t = t[:150]
			}
			r := &sessRow{Kind: "sess", T: bytesOf(t), Rev: b2i(c.rnd.Intn(4) == 0), Track: i % 2}
			mine, all := ops(c.rnd, t), allOps(c.rnd, t)
			for j := 0; j < 50; j++ {
				o := all[c.rnd.Intn(len(all))]
				if c.rnd.Intn(2) == 0 {
					o = mine[c.rnd.Intn(len(mine))]
				}
				r.O = append(r.O, o)
				r.S = append(r.S, sessSt{O: len(r.O)})
				if c.rnd.Intn(8) == 0 { // the same call again
					r.S = append(r.S, sessSt{O: 1 + c.rnd.Intn(len(r.O))})
				}
			}
			c.emit(r)
		}
	}
}

func init() {
	suites["S02"] = mixed(opsC02, scanTexts)
	suites["S03"] = mixed(opsC03, scanTexts)
	suites["S04"] = mixed(opsC04, scanTexts)
	suites["S05"] = mixed(opsC05, scanTexts)
	suites["S06"] = mixed(opsC06, scanTexts)
	suites["S07"] = mixed(opsC07, scanTexts)
	suites["S08"] = mixed(opsNum, numTexts)
	suites["S09"] = mixed(opsC09, boolTexts)
	suites["S30"] = mixed(opsC30, lineTexts)
	kinds["sess"] = func() row { return &sessRow{} }
	suites["C01"] = and(sessSuite(false), longSess(false))
	suites["C29"] = and(sessSuite(true), longSess(true))
}
