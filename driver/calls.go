package main

import (
	"math/rand"
	"strconv"
	"unicode"
	"unicode/utf8"

	"github.com/aiq/tok"
)

// op is one scanner call with its arguments.
type op struct {
	Op   string   `json:"op"`
	M    string   `json:"m,omitempty"`    // rune test: rune, any, between, match, nmatch
	N    *int     `json:"n,omitempty"`    // a number
	S    *[]int   `json:"s,omitempty"`    // a string
	SS   *[][]int `json:"ss,omitempty"`   // strings
	R    *int     `json:"r,omitempty"`    // a rune
	RS   *[]int   `json:"rs,omitempty"`   // runes
	Lo   *int     `json:"lo,omitempty"`   // first rune of a range
	Hi   *int     `json:"hi,omitempty"`   // last rune of a range
	F    *string  `json:"f,omitempty"`    // bool format
	Base *int     `json:"base,omitempty"` // number base
	Bits *int     `json:"bits,omitempty"` // bit size
	B    *op      `json:"b,omitempty"`    // what the function of While calls
	kept *keptReaders
}

// keptReaders are the readers of an op that is called several times.
type keptReaders struct {
	b *tok.BoolReader
	i *tok.IntReader
	u *tok.UintReader
}

func opN(name string, n int) op      { return op{Op: name, N: &n} }
func opS(name string, s string) op   { b := bytesOf(s); return op{Op: name, S: &b} }
func opR(name string, r rune) op     { i := int(r); return op{Op: name, M: "rune", R: &i} }
func opF(name string, f string) op   { return op{Op: name, F: &f} }
func opNum(name string, b, s int) op { return op{Op: name, Base: &b, Bits: &s} }
func opSS(name string, ss ...string) op {
	l := [][]int{}
	for _, s := range ss {
		l = append(l, bytesOf(s))
	}
	return op{Op: name, SS: &l}
}
func opSet(name, m string, rs ...rune) op {
	l := []int{}
	for _, r := range rs {
		l = append(l, int(r))
	}
	return op{Op: name, M: m, RS: &l}
}
func opBetween(name string, lo, hi rune) op {
	a, b := int(lo), int(hi)
	return op{Op: name, M: "between", Lo: &a, Hi: &b}
}

func (o op) matcher() tok.MatchFunc {
	not := o.M == "nmatch"
	return func(r rune) bool {
		for _, x := range *o.RS {
			if rune(x) == r {
				return !not
			}
		}
		return not
	}
}

func runesStr(rs []int) string {
	res := ""
	for _, r := range rs {
		res += string(rune(r))
	}
	return res
}

func digits(neg bool, abs uint64, base int) []int {
	res := []int{b2i(neg && abs != 0)}
	for _, c := range strconv.FormatUint(abs, base) {
		d, _ := strconv.ParseInt(string(c), 16, 32)
		res = append(res, int(d))
	}
	return res
}

func digitsOf(v int64, base int) []int {
	if v < 0 {
		return digits(true, uint64(-(v+1))+1, base)
	}
	return digits(false, uint64(v), base)
}

// apply calls o on s; the values are only meaningful if ok.
func (o op) apply(s *tok.Scanner) (ok bool, v []int) {
	pick := func(r func(rune) bool, a func(string) bool, b func(rune, rune) bool, m func(tok.MatchFunc) bool) bool {
		switch o.M {
		case "rune":
			return r(rune(*o.R))
		case "any":
			return a(runesStr(*o.RS))
		case "between":
			return b(rune(*o.Lo), rune(*o.Hi))
		default:
			return m(o.matcher())
		}
	}
	switch o.Op {
	case "Move":
		ok = s.Move(*o.N)
	case "MoveRunes":
		ok = s.MoveRunes(*o.N)
	case "ToMarker":
		ok = s.ToMarker(tok.Marker(*o.N))
	case "ToEnd":
		ok = s.ToEnd()
	case "ToStart":
		ok = s.ToStart()
	case "If":
		ok = s.If(strOf(*o.S))
	case "IfAny":
		ok = s.IfAny(strsOf(*o.SS)...)
	case "IfFold":
		ok = s.IfFold(strOf(*o.S))
	case "IfR":
		ok = pick(s.IfRune, s.IfAnyRune, s.IfBetween, s.IfMatch)
	case "To":
		ok = s.To(strOf(*o.S))
	case "ToFold":
		ok = s.ToFold(strOf(*o.S))
	case "ToR":
		ok = pick(s.ToRune, s.ToAnyRune, s.ToBetween, s.ToMatch)
	case "WhileR":
		ok = pick(s.WhileRune, s.WhileAnyRune, s.WhileBetween, s.WhileMatch)
	case "While":
		n := 0
		ok = s.While(func() bool {
			n++
			res, _ := o.B.apply(s)
			return res && n < *o.N
		})
	case "RevIf":
		ok = s.RevIf(strOf(*o.S))
	case "RevIfAny":
		ok = s.RevIfAny(strsOf(*o.SS))
	case "RevIfFold":
		ok = s.RevIfFold(strOf(*o.S))
	case "RevIfR":
		ok = pick(s.RevIfRune, s.RevIfAnyRune, s.RevIfBetween, s.RevIfMatch)
	case "RevTo":
		ok = s.RevTo(strOf(*o.S))
	case "RevToFold":
		ok = s.RevToFold(strOf(*o.S))
	case "RevToR":
		ok = pick(s.RevToRune, s.RevToAnyRune, s.RevToBetween, s.RevToMatch)
	case "RevWhileR":
		ok = pick(s.RevWhileRune, s.RevWhileAnyRune, s.RevWhileBetween, s.RevWhileMatch)
	case "ReadRune":
		r, e := s.ReadRune()
		ok, v = e == nil, []int{int(r)}
	case "RevReadRune":
		r, e := s.RevReadRune()
		ok, v = e == nil, []int{int(r)}
	case "ScanString":
		str, b := s.ScanString(*o.N)
		ok, v = b, bytesOf(str)
	case "LineCol":
		l, c := s.LineCol(*o.N)
		ok, v = true, []int{clip(l), clip(c)}
	case "ReadBool":
		b, e := s.ReadBool(*o.F)
		ok, v = e == nil, []int{b2i(b)}
	case "BoolReader":
		r := tok.Bool(*o.F)
		if o.kept != nil {
			if o.kept.b == nil {
				o.kept.b = r
			}
			r = o.kept.b
		}
		r.Value = true
		ok = s.Use(r) == nil
		v = []int{b2i(r.Value)}
	case "ReadInt":
		i, e := s.ReadInt(*o.Base, *o.Bits)
		ok = e == nil
		if ok {
			v = digitsOf(i, *o.Base)
		}
	case "IntReader":
		r := tok.Int(*o.Base, *o.Bits)
		if o.kept != nil {
			if o.kept.i == nil {
				o.kept.i = r
			}
			r = o.kept.i
		}
		ok = r.Read(s) == nil
		if ok {
			v = digitsOf(r.Value, *o.Base)
		}
	case "ReadUint":
		u, e := s.ReadUint(*o.Base, *o.Bits)
		ok = e == nil
		if ok {
			v = digits(false, u, *o.Base)
		}
	case "UintReader":
		r := tok.Uint(*o.Base, *o.Bits)
		if o.kept != nil {
			if o.kept.u == nil {
				o.kept.u = r
			}
			r = o.kept.u
		}
		ok = r.Read(s) == nil
		if ok {
			v = digits(false, r.Value, *o.Base)
		}
	default:
		panic("driver: unknown op " + o.Op)
	}
	if !ok {
		v = nil
	}
	return ok, v
}

func strsOf(l [][]int) []string {
	res := []string{}
	for _, b := range l {
		res = append(res, strOf(b))
	}
	return res
}

// callRow is a text and calls on it; C holds for every call the start
// position, the index of the op, and, filled in by run, what it reported (2 is
// a panic), the position after the call and the values it returned.
type callRow struct {
	Kind string  `json:"kind"`
	T    []int   `json:"t"`
	O    []op    `json:"o"`
	C    [][]int `json:"c"`
}

type nullTracker struct{}

func (nullTracker) Update(tok.Marker) {}

func call(s *tok.Scanner, o op, p, oi int) []int {
	ok, v := false, []int(nil)
	res := []int{p, oi}
	if guard(func() { ok, v = o.apply(s) }) {
		return append(res, 2, clip(int(s.Mark())))
	}
	return append(append(res, b2i(ok), clip(int(s.Mark()))), v...)
}

func same(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (r *callRow) run() {
	text := strOf(r.T)
	shared := tok.NewScanner(text)
	kept := make([]keptReaders, len(r.O))
	done := [][]int{}
	for _, c := range r.C {
		tick()
		p, o := c[0], r.O[c[1]-1]
		if !shared.ToMarker(tok.Marker(p)) || int(shared.Mark()) != p {
			shared = tok.NewScanner(text)
			shared.Move(p)
		}
		ko := o
		ko.kept = &kept[c[1]-1]
		a := call(shared, ko, p, c[1])
		done = append(done, a)
		fresh := tok.NewScanner(text)
		fresh.Move(p)
		fresh.Tracker = nullTracker{}
		b := call(fresh, o, p, c[1])
		if !same(a, b) {
			done = append(done, b)
		}
	}
	r.C = done
}

// ------------------------------------------------------------------ the texts

// cells of texts: every width, the edges of the encoding, invalid sequences
var cells = []string{
	"a", "b", "A", "B", "z", "k", "s", "K", "S", "0", "9", " ", "\n", "\r\n", "\t", "-",
	"\u00e4", "\u00c4", "\u00df", "\u017f", "\u212a", "\u1e9e", "\u03c3", "\u03c2", "\u03a3", "\u044f", "\u042f",
	"\u4e16", "\u754c", "\uFFFD", "\uFFFE",
	"\u07FF", "\u0800", "\uFFFF", "\U00010000", "\U0001F600", "\U0010FFFF", "\U00010400", "\U00010428",
	"\x00", "\x7f", "\u0080", "\xff", "\x80", "\xbf", "\xc3", "\xe4\xb8", "\xed\xa0\x80", "\xc0\x80",
	"\xf0\x9f\x98", "\xf4\x90\x80\x80", "\xe0\x80\x80", "\u2028", "\u00b5", "\u03bc", "\u212b", "\u00e5",
}

var smallCells = []string{"a", "A", "b", "ä", "世", "\xff", "\uFFFD"}

// every concatenation of up to n of the cells
func allTexts(cells []string, n int) []string {
	res := []string{""}
	last := []string{""}
	for i := 0; i < n; i++ {
		next := []string{}
		for _, t := range last {
			for _, c := range cells {
				next = append(next, t+c)
			}
		}
		res = append(res, next...)
		last = next
	}
	return res
}

func randText(r *rand.Rand, max int) string {
	// few different cells, so that repetitions and near misses are frequent
	pool := make([]string, 1+r.Intn(5))
	for i := range pool {
		pool[i] = cells[r.Intn(len(cells))]
	}
	n := r.Intn(max + 1)
	res := ""
	for i := 0; i < n; i++ {
		if r.Intn(12) == 0 {
			res += cells[r.Intn(len(cells))]
		} else {
			res += pool[r.Intn(len(pool))]
		}
	}
	return res
}

// a rune that is likely to matter for the text
func someRune(r *rand.Rand, text string) rune {
	if text != "" && r.Intn(4) != 0 {
		rs := []rune(text)
		x := rs[r.Intn(len(rs))]
		switch r.Intn(8) {
		case 0:
			x++
		case 1:
			if x > 0 {
				x--
			}
		}
		return x
	}
	c, _ := utf8.DecodeRuneInString(cells[r.Intn(len(cells))])
	return c
}

// a string that is likely to matter for the text
func someString(r *rand.Rand, text string) string {
	if text != "" && r.Intn(4) != 0 {
		a := r.Intn(len(text))
		b := a + r.Intn(len(text)-a+1)
		if r.Intn(2) == 0 && b > a+4 {
			b = a + 4
		}
		s := text[a:b]
		switch r.Intn(8) {
		case 0:
			s += cells[r.Intn(len(cells))]
		case 1:
			s = cells[r.Intn(len(cells))] + s
		}
		return s
	}
	s := ""
	for i := r.Intn(3); i >= 0; i-- {
		s += cells[r.Intn(len(cells))]
	}
	return s
}

var swapFold = map[rune][]rune{}

func init() {
	for _, orbit := range [][]rune{
		{'k', 'K', 0x212A}, {'s', 'S', 0x17F}, {0xE4, 0xC4}, {0xDF, 0x1E9E}, {0x3C3, 0x3C2, 0x3A3},
		{0x44F, 0x42F}, {0x10400, 0x10428}, {0xB5, 0x3BC, 0x39C}, {0xE5, 0xC5, 0x212B}, {0x3C9, 0x3A9, 0x2126},
	} {
		for i, x := range orbit {
			swapFold[x] = append(append([]rune{}, orbit[:i]...), orbit[i+1:]...)
		}
	}
}

// refold changes the case of some runes
func refold(r *rand.Rand, s string) string {
	res := ""
	for _, x := range s {
		if l, ok := swapFold[x]; ok && r.Intn(2) == 0 {
			x = l[r.Intn(len(l))]
		} else if 'a' <= x && x <= 'z' && r.Intn(2) == 0 {
			x -= 32
		} else if 'A' <= x && x <= 'Z' && r.Intn(2) == 0 {
			x += 32
		}
		res += string(x)
	}
	return res
}

func validOnly(s string) string {
	if utf8.ValidString(s) {
		return s
	}
	res := ""
	for i, x := range s {
		if x == utf8.RuneError {
			if _, w := utf8.DecodeRuneInString(s[i:]); w == 1 {
				continue
			}
		}
		res += string(x)
	}
	return res
}

// runes of a listing must survive the way through a string
func listable(r rune) rune {
	if !utf8.ValidRune(r) {
		return utf8.RuneError
	}
	return r
}

// ----------------------------------------------------------- ops by property

func runeTests(r *rand.Rand, text, name string) []op {
	x := someRune(r, text)
	y, z := listable(someRune(r, text)), listable(someRune(r, text))
	lo, hi := someRune(r, text), someRune(r, text)
	if lo > hi && r.Intn(8) != 0 {
		lo, hi = hi, lo
	}
	switch r.Intn(6) {
	case 0:
		hi = lo
	case 1:
		lo, hi = 0, utf8.MaxRune
	case 2:
		lo = utf8.RuneError
		hi = lo
	}
	res := []op{
		opR(name, x), opR(name, someRune(r, text)),
		opSet(name, "any", y), opSet(name, "any", y, z, listable(someRune(r, text))),
		opBetween(name, lo, hi), opBetween(name, x, x+1),
		opSet(name, "match", y, z), opSet(name, "nmatch", z),
	}
	switch r.Intn(6) {
	case 0:
		res = append(res, opSet(name, "any"), opSet(name, "nmatch"), opSet(name, "match"))
	case 1:
		// an ASCII listing with more than 8 runes takes another way in IndexAny
		res = append(res, opSet(name, "any", 'q', 'w', 'e', 'r', 't', 'u', 'i', 'o', 'b', 'A'))
	}
	return res
}

func stringTests(r *rand.Rand, text, name string, fold, revTo bool) []op {
	res := []op{}
	for i := 0; i < 4; i++ {
		s := someString(r, text)
		if fold || revTo {
			s = validOnly(s)
		}
		if fold {
			s = refold(r, s)
		}
		if revTo && s == "" {
			continue
		}
		res = append(res, opS(name, s))
	}
	return res
}

func anyTests(r *rand.Rand, text, name string) []op {
	res := []op{}
	for i := 0; i < 2; i++ {
		l := []string{}
		n := r.Intn(4)
		if r.Intn(15) == 0 {
			n = 8 + r.Intn(12)
		}
		for j := n; j >= 0; j-- {
			l = append(l, someString(r, text))
		}
		res = append(res, opSS(name, l...))
	}
	return res
}

func opsC01(r *rand.Rand, text string) []op {
	res := []op{opN("ToEnd", 0), opN("ToStart", 0)}
	for _, d := range []int{-1, 0, 1, len(text), len(text) + 1, -len(text), -len(text) - 1, r.Intn(9) - 4} {
		res = append(res, opN("Move", d), opN("ToMarker", d), opN("MoveRunes", d))
	}
	return append(res, opN("ToMarker", len(text)-1), opN("ToMarker", 1000), opN("Move", -1000), opN("MoveRunes", 1000), opN("MoveRunes", -1000))
}

func opsC02(r *rand.Rand, text string) []op {
	res := stringTests(r, text, "If", false, false)
	res = append(res, opS("If", ""), opS("If", text))
	res = append(res, anyTests(r, text, "IfAny")...)
	res = append(res, stringTests(r, text, "IfFold", true, false)...)
	return append(res, runeTests(r, text, "IfR")...)
}

func opsC03(r *rand.Rand, text string) []op {
	res := stringTests(r, text, "To", false, false)
	res = append(res, opS("To", ""))
	res = append(res, stringTests(r, text, "ToFold", true, false)...)
	res = append(res, opS("ToFold", ""))
	return append(res, runeTests(r, text, "ToR")...)
}

func opsC04(r *rand.Rand, text string) []op {
	res := append(runeTests(r, text, "WhileR"), runeTests(r, text, "WhileR")...)
	bodies := append(runeTests(r, text, "IfR"), stringTests(r, text, "If", false, false)...)
	bodies = append(bodies, anyTests(r, text, "IfAny")...)
	bodies = append(bodies, runeTests(r, text, "RevIfR")...)
	for i := 0; i < 6; i++ {
		n, b := []int{1, 2, 3, 1000}[r.Intn(4)], &bodies[r.Intn(len(bodies))]
		if n > 5 && b.M == "" {
			n = 5 // an empty string can be read again and again
		}
		res = append(res, op{Op: "While", B: b, N: &n})
	}
	return res
}

func opsC05(r *rand.Rand, text string) []op {
	res := stringTests(r, text, "RevIf", false, false)
	res = append(res, opS("RevIf", ""), opS("RevIf", text))
	res = append(res, anyTests(r, text, "RevIfAny")...)
	res = append(res, stringTests(r, text, "RevIfFold", true, false)...)
	return append(res, runeTests(r, text, "RevIfR")...)
}

func opsC06(r *rand.Rand, text string) []op {
	res := stringTests(r, text, "RevTo", false, true)
	res = append(res, stringTests(r, text, "RevToFold", true, true)...)
	res = append(res, runeTests(r, text, "RevToR")...)
	return append(res, runeTests(r, text, "RevWhileR")...)
}

func opsC07(r *rand.Rand, text string) []op {
	res := []op{{Op: "ReadRune"}, {Op: "RevReadRune"}}
	n := utf8.RuneCountInString(text)
	for i := 0; i <= 4; i++ {
		res = append(res, opN("MoveRunes", i), opN("MoveRunes", -i), opN("ScanString", i))
	}
	for _, d := range []int{n, n + 1, n - 1, r.Intn(n + 2)} {
		if d >= 0 {
			res = append(res, opN("MoveRunes", d), opN("MoveRunes", -d), opN("ScanString", d))
		}
	}
	return res
}

func opsC09(r *rand.Rand, text string) []op {
	res := []op{}
	for _, f := range []string{"", "*", "l", "U", "Cc", "x", "L", "u", "cC", "true", " ", "**", "lU", "cc", "CC", "c", "C", "CcU", "UU", "ll", "l*", " l", "lower", "Upper"} {
		res = append(res, opF("ReadBool", f), opF("BoolReader", f))
	}
	return res
}

func opsC30(r *rand.Rand, text string) []op {
	res := []op{}
	for _, n := range []int{0, 1, 2, 4, 8, 3 + r.Intn(20)} {
		res = append(res, opN("LineCol", n))
	}
	return res
}

func opsNum(r *rand.Rand, text string) []op {
	res := []op{}
	for _, b := range []int{8, 10, 16} {
		for _, s := range []int{8, 16, 32, 64} {
			for _, n := range []string{"ReadInt", "ReadUint", "IntReader", "UintReader"} {
				res = append(res, opNum(n, b, s))
			}
		}
	}
	for _, x := range [][]int{{2, 8}, {0, 64}, {10, 0}, {16, 7}, {36, 32}, {-10, 8}, {10, 128}, {10, 63}, {7, 8}, {10, -8}, {10, 24}} {
		for _, n := range []string{"ReadInt", "ReadUint", "IntReader", "UintReader"} {
			res = append(res, opNum(n, x[0], x[1]))
		}
	}
	return res
}

// ------------------------------------------------------------------ the suites

// addCalls emits rows for text with every position up to 40, the edges and
// some others behind that.
func addCalls(c *ctx, text string, ops []op, every int) {
	row := &callRow{Kind: "calls", T: bytesOf(text), O: ops}
	if len(text) > 2*every {
		every /= 6
	}
	for p := 0; p <= len(text); p++ {
		if p > every && p < len(text)-every && c.rnd.Intn(len(text)) > every {
			continue
		}
		for i := range ops {
			row.C = append(row.C, []int{p, i + 1})
		}
	}
	c.rnd.Shuffle(len(row.C), func(i, j int) { row.C[i], row.C[j] = row.C[j], row.C[i] })
	c.emit(row)
}

func callSuite(ops func(*rand.Rand, string) []op, texts func(*ctx) []string) func(*ctx) {
	return func(c *ctx) {
		for _, t := range texts(c) {
			addCalls(c, t, ops(c.rnd, t), 24)
		}
	}
}

func scanTexts(c *ctx) []string {
	res := allTexts(smallCells, c.n(3, 4))
	for i := c.n(1200, 12000); i > 0; i-- {
		res = append(res, randText(c.rnd, 10))
	}
	for i := c.n(50, 600); i > 0; i-- {
		res = append(res, randText(c.rnd, 60))
	}
	for i := c.n(6, 60); i > 0; i-- {
		res = append(res, randText(c.rnd, 400))
	}
	for i := c.n(4, 40); i > 0; i-- { // longer than common limits of buffers
		t := randText(c.rnd, 3)
		for len(t) < 600 {
			t += randText(c.rnd, 300)
		}
		res = append(res, t)
	}
	return res
}

func lineTexts(c *ctx) []string {
	res := allTexts([]string{"a", "\n", "\r\n", "\t", "ä", "\r"}, c.n(4, 5))
	pool := []string{"a", "bc", "\n", "\n", "\r\n", "\t", "\t", "ä", "世", "\r", "\v", "\f", "\u2028", "\u0085", "\xff", " "}
	for i := c.n(800, 8000); i > 0; i-- {
		t := ""
		for j := c.rnd.Intn(30); j > 0; j-- {
			t += pool[c.rnd.Intn(len(pool))]
		}
		res = append(res, t)
	}
	for i := c.n(10, 100); i > 0; i-- {
		t := ""
		for j := c.rnd.Intn(400); j > 0; j-- {
			t += pool[c.rnd.Intn(len(pool))]
		}
		res = append(res, t)
	}
	return res
}

func boolTexts(c *ctx) []string {
	words := []string{"true", "false", "True", "False", "TRUE", "FALSE", "tRUE", "fALSE", "t", "f", "T", "F", "tru", "fals", "trUE", "falsE", "FALSe", "TRUe", "", " ", "x", "1", "0", "\xff", "ä", "yes"}
	res := []string{}
	for _, a := range words {
		res = append(res, a)
		for _, b := range words {
			res = append(res, a+b)
			if c.thorough {
				for _, d := range words {
					res = append(res, a+b+d)
				}
			}
		}
	}
	// one letter off
	for _, w := range words[:6] {
		for i := range w {
			for _, x := range []string{"", "e", "E", "u", "r", "\xff", " ", "l", "S"} {
				res = append(res, w[:i]+x+w[i+1:])
			}
		}
	}
	return res
}

func numTexts(c *ctx) []string {
	res := []string{"", "+", "-", "+-1", "-+1", "--1", "++1", "x", "0x1f", "1_000", "1.5", "٣", "1٣", "\xff1", "1\xff", "0", "00", "000000000000000000000000000", "-0", "+0", "-00", "-x", "+x", " 1", "- 1", "8", "-8", "9a", "1g", "fF", "Ff0g"}
	sfx := []string{"", "0", "x", "ff", " ", "\xff"}
	add := func(d string) {
		z := []string{"", "0", "000"}[c.rnd.Intn(3)]
		for _, sg := range []string{"", "-", "+"} {
			res = append(res, sg+z+d+sfx[c.rnd.Intn(len(sfx))], sg+d)
		}
	}
	for _, k := range []int{7, 8, 15, 16, 31, 32, 63} {
		for d := -2; d <= 2; d++ {
			v := uint64(1)<<k + uint64(d)
			for _, b := range []int{8, 10, 16} {
				add(strconv.FormatUint(v, b))
			}
		}
	}
	for _, d := range []string{
		"18446744073709551614", "18446744073709551615", "18446744073709551616", "18446744073709551617", "18446744073709551620", "18446744073709551700",
		"ffffffffffffffff", "10000000000000000", "10000000000000001", "fffffffffffffffff", "FFFFFFFFFFFFFFFE", "7fffffffffffffff8", "8000000000000000",
		"1777777777777777777777", "2000000000000000000000", "777777777777777777777", "1000000000000000000000", "7777777777777777777777", "9223372036854775807", "9223372036854775808", "9223372036854775809", "99999999999999999999", "27670116110564327424", "36893488147419103232",
	} {
		add(d)
	}
	for i := c.n(500, 6000); i > 0; i-- {
		n := 1 + c.rnd.Intn(24)
		set := []string{"01", "0123456789", "01234567", "0123456789abcdefABCDEF", "89", "fF0"}[c.rnd.Intn(6)]
		d := ""
		for j := 0; j < n; j++ {
			d += string(set[c.rnd.Intn(len(set))])
		}
		res = append(res, []string{"", "", "-", "+"}[c.rnd.Intn(4)]+d+sfx[c.rnd.Intn(len(sfx))])
	}
	return res
}

// digitLikes lists bytes and characters that are near to digits and signs.
func digitLikes(c *ctx) []string {
	res := []string{}
	for b := 0; b < 256; b++ {
		res = append(res, string([]byte{byte(b)}))
	}
	for r := rune(0x80); r < 0x250; r++ {
		res = append(res, string(r))
	}
	for i, t := range []*unicode.RangeTable{unicode.Nd, unicode.No, unicode.Nl, unicode.Pd, unicode.Hex_Digit} {
		each := func(lo, hi, step rune) {
			for r := lo; r <= hi; r += step {
				if i == 4 || c.thorough || r == lo || c.rnd.Intn(12) == 0 {
					res = append(res, string(r))
				}
			}
		}
		for _, x := range t.R16 {
			each(rune(x.Lo), rune(x.Hi), rune(x.Stride))
		}
		for _, x := range t.R32 {
			each(rune(x.Lo), rune(x.Hi), rune(x.Stride))
		}
	}
	return append(res, "\u2212", "\u207a", "\u207b", "\ufe62", "\uff0b", "\uff0d", "\u0430", "\u0435", "\u0441", "\u212f", "\u2130")
}

func init() {
	kinds["calls"] = func() row { return &callRow{} }
	suites["C02"] = and(callSuite(opsC02, scanTexts), longCalls("C02"))
	suites["C03"] = and(callSuite(opsC03, scanTexts), longCalls("C03"))
	suites["C04"] = and(callSuite(opsC04, scanTexts), longCalls("C04"))
	suites["C05"] = and(callSuite(opsC05, scanTexts), longCalls("C05"))
	suites["C06"] = and(callSuite(opsC06, scanTexts), longCalls("C06"))
	suites["C07"] = and(callSuite(opsC07, scanTexts), longCalls("C07"))
	suites["C09"] = and(callSuite(opsC09, boolTexts), longCalls("C09"))
	suites["C30"] = and(callSuite(opsC30, lineTexts), longCalls("C30"))
	suites["C08"] = and(longCalls("C08"), func(c *ctx) {
		// what else could be taken for a digit
		for _, x := range digitLikes(c) {
			row := &callRow{Kind: "calls", T: bytesOf("1" + x + "-" + x + "1")}
			for _, b := range []int{8, 10, 16} {
				row.O = append(row.O, opNum("ReadInt", b, 64), opNum("ReadUint", b, 64))
			}
			for i := range row.O {
				for _, p := range []int{0, 1, 1 + len(x), 2 + len(x)} {
					row.C = append(row.C, []int{p, i + 1})
				}
			}
			c.emit(row)
		}
		for _, t := range numTexts(c) {
			row := &callRow{Kind: "calls", T: bytesOf("#" + t), O: opsNum(c.rnd, t)}
			for i := range row.O {
				row.C = append(row.C, []int{1, i + 1})
			}
			c.emit(row)
			if len(t) < 3 || c.rnd.Intn(10) == 0 {
				addCalls(c, t, opsNum(c.rnd, t), 24)
			}
		}
	})
}
