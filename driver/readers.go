package main

import (
	"errors"
	"fmt"
	"io"
	"os"
	"strconv"
	"strings"

	"github.com/aiq/tok"
)

// node is one reader of an expression; the parts are indices (from 1) of
// other nodes.  See spec/Readers.tla for the kinds.
type node struct {
	K    string   `json:"k"`
	C    []int    `json:"c"`
	S    []int    `json:"s"`    // bytes of lit and fold
	RS   []int    `json:"rs"`   // runes of anyrune, match, holey, singles of set
	RG   [][]int  `json:"rg"`   // ranges of set
	N    int      `json:"n"`    // rune, count, cell or number of a map function
	Lo   int      `json:"lo"`   // range
	Hi   int      `json:"hi"`   //
	Base int      `json:"base"` // int and uint
	Bits int      `json:"bits"` //
	F    string   `json:"f"`    // format of bool, result of wrap
	Q    string   `json:"q"`    // quoted text for descriptions
	QS   []string `json:"qs"`   //
	W    string   `json:"w"`    // name or info
	Ctor string   `json:"ctor"` // which constructor builds it
}

// readRun is one read.  Mode 0: a new reader and a new scanner, 1: the reader
// of the runs before and a new scanner, 2: both from the run before, 3: like 2
// with the scanner first moved to at.
type readRun struct {
	I    int    `json:"i"` // which of the readers (from 1)
	T    int    `json:"t"` // which text (from 1)
	At   int    `json:"at"`
	API  string `json:"api"`
	Mode int    `json:"mode"`
	Rst  int    `json:"rst"` // reset the log before
	PN   int    `json:"pn"`  // PrintWithPreview with that many runes, -1 for Print

	OK   int             `json:"ok"` // 2 is a panic
	P    int             `json:"p"`
	E    []interface{}   `json:"e"`
	IOK  int             `json:"iok"` // what the reader itself returned
	IE   []interface{}   `json:"ie"`
	Tok  []int           `json:"tok"`
	Get  []int           `json:"get"`
	Str  []int           `json:"str"`
	Snc  []int           `json:"snc"`
	PK   [][]interface{} `json:"pk"`
	BS   string          `json:"bs"` // the basket as string
	MP   [][]int         `json:"mp"`
	LG   [][]interface{} `json:"lg"`
	Told []int           `json:"told"`
	OK2  int             `json:"ok2"` // without observers
	P2   int             `json:"p2"`
	E2   []interface{}   `json:"e2"`
	Out  [][]interface{} `json:"out"` // printed lines
}

type readRow struct {
	Kind  string    `json:"kind"`
	N     []node    `json:"n"`
	Root  []int     `json:"root"`  // root node of each reader
	Cells []int     `json:"cells"` // begin of each Janus pair
	TX    [][]int   `json:"tx"`
	Tr    string    `json:"tr"` // tracker: none, basket, rec
	Obs   string    `json:"obs"`
	Runs  []readRun `json:"runs"`
	What  []string  `json:"what"` // of each reader
	Inv   []int     `json:"inv"`  // HasInvalidReader of it
	AInv  []int     `json:"ainv"` // AnyHasInvalidReader of the first 0, 1, ... of them
	most  int       // observations of a run, if limited
}

// built is a set of readers that share nothing with another set, with what
// they tell.
type built struct {
	row    *readRow
	strip  bool
	memo   map[int]tok.Reader
	beg    map[int]tok.Reader
	end    map[int]tok.Reader
	basket *tok.Basket
	log    *tok.Log
	maps   [][]int
	late   []*tok.Rule // rules to observe when all is built
	lateK  string
}

// gramOf is a Grammar of some rules.
type gramOf struct {
	tok.Reader
	rules []*tok.Rule
}

func (g *gramOf) Grammar() []*tok.Rule { return g.rules }

// root builds the reader i; if the observed rules form a grammar, they are
// observed all at once.
func (b *built) root(i int, s *tok.Scanner) tok.Reader {
	r := b.reader(i)
	if len(b.late) > 0 && !b.strip {
		g := &gramOf{r, b.late}
		if b.lateK == "mon" {
			b.log = tok.MonitorGrammar(g)
		} else {
			b.basket = s.NewBasketFor(g)
		}
		b.late = nil
	}
	return r
}

func newBuilt(r *readRow, strip bool) *built {
	return &built{row: r, strip: strip, memo: map[int]tok.Reader{}, beg: map[int]tok.Reader{},
		end: map[int]tok.Reader{}, basket: &tok.Basket{}, log: &tok.Log{}, maps: [][]int{}}
}

func isObserver(k string) bool { return k == "map" || k == "pick" || k == "mon" || k == "named" }

func (b *built) mapFunc(id int) tok.MapFunc {
	return func(t tok.Token) {
		if len(b.maps) < 5000 {
			x, y := ends(t)
			b.maps = append(b.maps, []int{id, x, y})
		}
	}
}

func (b *built) arg(i int) interface{} {
	n := b.row.N[i-1]
	if n.Ctor == "raw" && n.K == "lit" {
		return strOf(n.S)
	}
	if n.Ctor == "raw" && n.K == "rune" {
		return rune(n.N)
	}
	return b.reader(i)
}

func (b *built) args(is []int) []interface{} {
	res := []interface{}{}
	for _, i := range is {
		res = append(res, b.arg(i))
	}
	return res
}

func (b *built) reader(i int) tok.Reader {
	if r, ok := b.memo[i]; ok {
		return r
	}
	n := b.row.N[i-1]
	if n.K == "rule" {
		rule := &tok.Rule{Name: n.W}
		b.memo[i] = rule
		chain := []node{}
		at := n.C[0]
		for isObserver(b.row.N[at-1].K) && strings.HasPrefix(b.row.N[at-1].Ctor, "rule") {
			chain = append(chain, b.row.N[at-1])
			at = b.row.N[at-1].C[0]
		}
		rule.Reader = b.reader(at)
		for j := len(chain) - 1; j >= 0 && !b.strip; j-- {
			x := chain[j]
			switch {
			case x.Ctor == "ruleg":
				b.late, b.lateK = append(b.late, rule), x.K
			case x.K == "map":
				rule.Map(b.mapFunc(x.N))
			case x.K == "pick" && x.Ctor == "rule2":
				b.basket.PickWith(rule)
			case x.K == "pick":
				rule.Pick(b.basket)
			case x.K == "mon" && x.Ctor == "rule2":
				b.log.Monitor(rule)
			case x.K == "mon":
				rule.Monitor(b.log)
			}
		}
		return rule
	}
	if b.strip && isObserver(n.K) {
		r := b.reader(n.C[0])
		b.memo[i] = r
		return r
	}
	r := b.make(n)
	b.memo[i] = r
	return r
}

func (b *built) janus(cell int) {
	if b.beg[cell] != nil {
		return
	}
	n := b.row.N[b.row.Cells[cell-1]-1]
	b.beg[cell], b.end[cell] = tok.Janus(n.W, b.reader(n.C[0]))
}

var errCustom = errors.New("custom")

func (b *built) make(n node) tok.Reader {
	set := func() tok.MatchFunc {
		return func(r rune) bool {
			for _, x := range n.RS {
				if rune(x) == r {
					return true
				}
			}
			return false
		}
	}
	switch n.K {
	case "lit":
		return tok.Lit(strOf(n.S))
	case "fold":
		return tok.Fold(strOf(n.S))
	case "rune":
		return tok.Rune(rune(n.N))
	case "anyrune":
		if n.Ctor == "WS" {
			return tok.WS()
		}
		return tok.AnyRune(runesStr(n.RS))
	case "between":
		if n.Ctor == "Digit" {
			return tok.Digit()
		}
		return tok.Between(rune(n.Lo), rune(n.Hi))
	case "set":
		str := ""
		flat := []rune{}
		for _, x := range n.RG {
			str += string(rune(x[0])) + "-" + string(rune(x[1]))
			flat = append(flat, rune(x[0]), rune(x[1]))
		}
		switch n.Ctor {
		case "HexDigit":
			return tok.HexDigit()
		case "BetweenAny":
			return tok.BetweenAny(str)
		case "BuildBetweenAny":
			return tok.BuildBetweenAny(flat...)
		}
		return tok.Set(str, runesStr(n.RS))
	case "holey":
		return tok.Holey(rune(n.Lo), rune(n.Hi), runesStr(n.RS))
	case "match":
		return tok.Match(n.W, set())
	case "bool":
		return tok.Bool(n.F)
	case "int":
		return tok.Int(n.Base, n.Bits)
	case "uint":
		return tok.Uint(n.Base, n.Bits)
	case "atend":
		return tok.AtEnd()
	case "invalid":
		return invalidReader(n.Ctor, n.N)
	case "any":
		switch n.Ctor {
		case "AnyFold":
			strs := []string{}
			for _, c := range n.C {
				strs = append(strs, strOf(b.row.N[c-1].S))
			}
			return tok.AnyFold(strs...)
		case "NL":
			return tok.NL()
		}
		return tok.Any(b.args(n.C)...)
	case "seq":
		return tok.Seq(b.args(n.C)...)
	case "skipseq":
		if n.Ctor == "SkipWSSeq" {
			return tok.SkipWSSeq(b.args(n.C[1:])...)
		}
		return tok.SkipSeq(b.reader(n.C[0]), b.args(n.C[1:])...)
	case "opt":
		return tok.Opt(b.arg(n.C[0]))
	case "many":
		return tok.Many(b.arg(n.C[0]))
	case "zom":
		return tok.Zom(b.arg(n.C[0]))
	case "times":
		return tok.Times(n.N, b.reader(n.C[0]))
	case "at":
		return tok.At(b.reader(n.C[0]))
	case "not":
		return tok.Not(b.reader(n.C[0]))
	case "to":
		return tok.To(b.arg(n.C[0]))
	case "past":
		return tok.Past(b.arg(n.C[0]))
	case "body":
		return tok.Body(b.reader(n.C[0]), b.reader(n.C[1]))
	case "bodytail":
		return tok.BodyTail(b.reader(n.C[0]), b.reader(n.C[1]))
	case "jbeg":
		b.janus(n.N)
		return b.beg[n.N]
	case "jend":
		b.janus(n.N)
		return b.end[n.N]
	case "named":
		return tok.Named(n.W, b.reader(n.C[0]))
	case "map":
		return tok.Map(b.reader(n.C[0]), b.mapFunc(n.N))
	case "pick":
		return tok.Pick(b.reader(n.C[0]), b.basket, n.W)
	case "mon":
		return tok.Monitor(b.reader(n.C[0]), b.log, n.W)
	case "wrap", "user":
		var sub tok.Reader
		if len(n.C) > 0 {
			sub = b.reader(n.C[0])
		}
		f := func(s *tok.Scanner) error {
			s.Move(n.N)
			if sub != nil {
				if e := sub.Read(s); e != nil {
					return e
				}
			}
			switch n.F {
			case "read":
				return s.ErrorFor(n.W)
			case "other":
				return errCustom
			}
			return nil
		}
		if n.K == "user" {
			return userReader{n.W, f}
		}
		return tok.Wrap(n.W, f)
	}
	panic("driver: unknown kind " + n.K)
}

// userReader is a Reader that leaves the cursor where it failed.
type userReader struct {
	what string
	f    func(s *tok.Scanner) error
}

func (u userReader) Read(s *tok.Scanner) error { return u.f(s) }
func (u userReader) What() string              { return u.what }

// invalidReader builds a reader with arguments a constructor can not use.
func invalidReader(ctor string, n int) tok.Reader {
	bad := []interface{}{12, 1.5, nil, []string{"a"}, 'x' == 'x', uint8(7)}[n%6]
	switch ctor {
	case "BetweenAny":
		return tok.BetweenAny([]string{"abc", "a-z0", "a-", "ab-", "a-zA_Z", "a_c"}[n%6])
	case "Set":
		return tok.Set([]string{"abc", "a-z0", "a-", "ab-", "a-zA_Z", "a_c"}[n%6], "xy")
	case "BuildBetweenAny":
		return tok.BuildBetweenAny([]rune("abcde")[:1+2*(n%3)]...)
	case "Any":
		return tok.Any("a", bad)
	case "Seq":
		return tok.Seq(bad, 'b', "c")
	case "SkipSeq":
		return tok.SkipSeq(tok.Zom(tok.WS()), "a", 'b', bad)
	case "SkipWSSeq":
		return tok.SkipWSSeq("a", bad, "c")
	case "Many":
		return tok.Many(bad)
	case "Zom":
		return tok.Zom(bad)
	case "Opt":
		return tok.Opt(bad)
	case "To":
		return tok.To(bad)
	case "Past":
		return tok.Past(bad)
	}
	return tok.InvalidReader("reason %d", n)
}

var invalidCtors = []string{"BetweenAny", "Set", "BuildBetweenAny", "Any", "Seq", "SkipSeq", "SkipWSSeq",
	"Many", "Zom", "Opt", "To", "Past", "InvalidReader"}

// ends finds the two ends of a token.
func ends(t tok.Token) (int, int) {
	var a, b int
	if n, _ := fmt.Sscanf(t.String(), "[%d-%d)", &a, &b); n == 2 && a <= b && tok.MakeToken(tok.Marker(a), tok.Marker(b)) == t {
		return clip(a), clip(b)
	}
	for a = 0; a < 400; a++ {
		for b = a; b < 400; b++ {
			if tok.MakeToken(tok.Marker(a), tok.Marker(b)) == t {
				return a, b
			}
		}
	}
	return -1, -1
}

func errOf(e error) []interface{} {
	if e == nil {
		return []interface{}{-1, -1, "", ""}
	}
	if re, ok := e.(tok.ReadError); ok {
		return []interface{}{1, clip(int(re.Marker)), re.What, re.Error()}
	}
	return []interface{}{0, -1, e.Error(), ""}
}

// spy passes on a read and remembers what it returned.
type spy struct {
	r   tok.Reader
	err error
	n   int
}

func (s *spy) Read(sca *tok.Scanner) error {
	s.n++
	s.err = s.r.Read(sca)
	return s.err
}
func (s *spy) What() string { return s.r.What() }

// execute reads with r through an API; the second result is false if the API
// reports only a bool.
func execute(run *readRun, s *tok.Scanner, r tok.Reader) {
	sp := &spy{r: r}
	var err error
	ok, hasErr := false, true
	run.Tok, run.Get, run.Str = []int{}, []int{}, []int{}
	token := func(t tok.Token) {
		a, b := ends(t)
		run.Tok = []int{a, b}
		guard(func() { run.Get = bytesOf(s.Get(t)) })
	}
	inner := func() bool { return sp.Read(s) == nil }
	innerF := func() bool { sp.Read(s); return false }
	read := func(s *tok.Scanner) error { return sp.Read(s) }
	readF := func(s *tok.Scanner) error { sp.Read(s); return errCustom }
	var str string
	hasStr := false
	fails := strings.HasSuffix(run.API, "!")
	switch strings.TrimSuffix(run.API, "!") {
	case "Read":
		err = sp.Read(s)
	case "Use":
		err = s.Use(sp)
	case "UseFunc":
		if fails {
			err = s.UseFunc(readF)
		} else {
			err = s.UseFunc(read)
		}
	case "TraceUse":
		str, err = s.TraceUse(sp)
		hasStr = true
	case "TraceUseFunc":
		if fails {
			str, err = s.TraceUseFunc(readF)
		} else {
			str, err = s.TraceUseFunc(read)
		}
		hasStr = true
	case "TokenizeUse":
		var t tok.Token
		t, err = s.TokenizeUse(sp)
		if err == nil {
			token(t)
		}
	case "CaptureUse":
		str, err = s.CaptureUse(sp)
		hasStr = true
	default:
		hasErr = false
		f := inner
		if fails {
			f = innerF
		}
		switch strings.TrimSuffix(run.API, "!") {
		case "Scope":
			ok = s.Scope(f)
		case "Trace":
			str, ok = s.Trace(f)
			hasStr = true
		case "Tokenize":
			var t tok.Token
			t, ok = s.Tokenize(f)
			if ok {
				token(t)
			}
		case "Capture":
			str, ok = s.Capture(f)
			hasStr = true
		default:
			panic("driver: unknown api " + run.API)
		}
	}
	if hasErr {
		ok = err == nil
		run.E = errOf(err)
	} else {
		run.E = []interface{}{-2, -1, "", ""}
	}
	if hasStr {
		run.Str = bytesOf(str)
	}
	run.OK = b2i(ok)
	run.IOK = b2i(sp.err == nil && !fails)
	run.IE = errOf(sp.err)
	if fails && hasErr {
		run.IE = errOf(errCustom)
	}
}

func (r *readRow) run() {
	r.prepare()
	var sets []*built
	var plain []*built
	fresh := func() {
		sets, plain = nil, nil
		for range r.Root {
			sets = append(sets, newBuilt(r, false))
			plain = append(plain, newBuilt(r, true))
		}
	}
	fresh()
	var s, s2 *tok.Scanner
	text, coupled := "", ""
	r.What, r.Inv, r.AInv = []string{}, []int{}, []int{b2i(tok.AnyHasInvalidReader(nil))}
	for i, root := range r.Root {
		w := ""
		guard(func() { w = sets[i].reader(root).What() })
		r.What = append(r.What, w)
		r.Inv = append(r.Inv, b2i(tok.HasInvalidReader(w)))
		r.AInv = append(r.AInv, b2i(tok.AnyHasInvalidReader(r.What)))
	}
	for i := range r.Runs {
		tick()
		run := &r.Runs[i]
		if run.Mode == 0 {
			fresh()
		}
		b := sets[run.I-1]
		if run.Mode < 2 || s == nil {
			text = strOf(r.TX[run.T-1])
			s = tok.NewScanner(text)
			s.Move(run.At)
			s2 = tok.NewScanner(text)
			coupled = ""
			if run.Mode == 0 && r.Tr == "basket" {
				if i%2 == 1 {
					s.Tracker = nullTracker{}
				}
				b.basket = s.NewBasket()
				coupled = "basket"
			}
		}
		if run.Mode == 3 {
			if i%2 == 0 {
				s.ToMarker(tok.Marker(run.At))
			} else {
				s.Move(run.At - int(s.Mark()))
			}
		}
		run.At = int(s.Mark())
		rec := &recTracker{told: []int{}}
		switch r.Tr {
		case "basket":
			if coupled == "" {
				s.Tracker = b.basket
			}
		case "rec":
			s.Tracker = rec
		}
		if run.Rst == 1 {
			b.log.Reset()
		}
		b.maps = [][]int{}
		var reader tok.Reader
		run.E, run.IE, run.E2 = errOf(nil), errOf(nil), errOf(nil)
		run.Snc = []int{}
		if guard(func() {
			reader = b.root(r.Root[run.I-1], s)
			execute(run, s, reader)
		}) {
			run.OK = 2
		}
		run.P = clip(int(s.Mark()))
		if run.OK == 1 {
			guard(func() { run.Snc = bytesOf(s.Since(tok.Marker(run.At))) })
		}
		run.Told = rec.told
		run.MP = b.maps
		run.PK = [][]interface{}{}
		for _, seg := range b.basket.Picked() {
			x, y := ends(seg.Token)
			run.PK = append(run.PK, []interface{}{seg.Info, x, y})
		}
		run.BS = b.basket.String()
		run.LG = [][]interface{}{}
		for _, e := range b.log.Entries {
			run.LG = append(run.LG, []interface{}{e.EnterAt, e.Info, e.Level, e.ExitAt, errOf(e.Error)})
		}
		run.Out = [][]interface{}{}
		if r.Obs == "print" {
			run.Out = printed(b.log, text, run.PN)
		}
		// the same read without observers
		if r.Obs == "strip" {
			s2.ToMarker(tok.Marker(run.At))
			run.OK2 = 2
			guard(func() {
				e := s2.Use(plain[run.I-1].reader(r.Root[run.I-1]))
				run.OK2, run.E2 = b2i(e == nil), errOf(e)
			})
			run.P2 = clip(int(s2.Mark()))
		}
		// expressions that try again and again: the runs before will do
		if n := len(run.LG) + len(run.MP) + len(run.Told); r.most > 0 && n > r.most {
			r.Runs = r.Runs[:i]
			return
		}
	}
}

// printed captures what the log prints: lines as <<text, bytes of the quoted
// preview or -1>>.
func printed(l *tok.Log, text string, n int) [][]interface{} {
	old := os.Stdout
	r, w, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	os.Stdout = w
	ch := make(chan string)
	go func() {
		b, _ := io.ReadAll(r)
		ch <- string(b)
	}()
	bad := guard(func() {
		if n < 0 {
			l.Print()
		} else {
			l.PrintWithPreview(text, n)
		}
	})
	os.Stdout = old
	w.Close()
	out := <-ch
	r.Close()
	res := [][]interface{}{}
	if bad {
		return append(res, []interface{}{"PANIC", []int{}})
	}
	for _, line := range strings.Split(strings.TrimSuffix(out, "\n"), "\n") {
		if out == "" {
			break
		}
		if n < 0 {
			res = append(res, []interface{}{line, []int{}})
			continue
		}
		i := strings.Index(line, " > ")
		if i < 0 {
			res = append(res, []interface{}{line, []int{-1}})
			continue
		}
		p, e := strconv.Unquote(line[i+3:])
		if e != nil {
			res = append(res, []interface{}{line, []int{-2}})
			continue
		}
		res = append(res, []interface{}{line[:i], bytesOf(p)})
	}
	return res
}

// prepare fills in what the specification needs beside the generated fields.
func (r *readRow) prepare() {
	trim := func(x int) string { return strings.Trim(strconv.QuoteRuneToGraphic(rune(x)), "'") }
	for i := range r.N {
		n := &r.N[i]
		if n.C == nil {
			n.C = []int{}
		}
		if n.S == nil {
			n.S = []int{}
		}
		if n.RS == nil {
			n.RS = []int{}
		}
		if n.RG == nil {
			n.RG = [][]int{}
		}
		n.QS = []string{}
		switch n.K {
		case "lit", "fold":
			n.Q = strconv.QuoteToGraphic(strOf(n.S))
		case "rune":
			n.Q = strconv.QuoteRuneToGraphic(rune(n.N))
		case "anyrune", "holey", "set":
			n.Q = strconv.QuoteToGraphic(runesStr(n.RS))
		case "bool":
			n.Q = strconv.QuoteToGraphic(n.F)
		case "invalid":
			guard(func() { n.Q = invalidReader(n.Ctor, n.N).What() })
		}
		for _, x := range n.RG {
			n.QS = append(n.QS, trim(x[0])+trim(x[1]))
		}
		if n.K == "between" || n.K == "holey" {
			q := trim(n.Lo) + trim(n.Hi)
			if n.Lo == n.Hi {
				q = strconv.QuoteRuneToGraphic(rune(n.Lo))
			}
			if n.K == "between" {
				n.Q = q
			} else {
				n.W = q
			}
		}
	}
	if r.Cells == nil {
		r.Cells = []int{}
	}
	if r.Runs == nil {
		r.Runs = []readRun{}
	}
	if r.TX == nil {
		r.TX = [][]int{}
	}
}

func init() {
	kinds["read"] = func() row { return &readRow{} }
}
