package main

import (
	"reflect"
	"strings"

	"github.com/aiq/tok"
	"github.com/aiq/tok/grammar"
)

// field of a grammar struct: rule, hidden (not exported) or other.
type field struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	Has  int    `json:"has"`
	Tag  string `json:"tag"`
}

type gramCase interface {
	tok.Grammar
	rules() []*tok.Rule
	fields() []field
}

// nameRow checks one text as a rule name.
type nameRow struct {
	Kind  string `json:"kind"`
	T     []int  `json:"t"`
	Err   int    `json:"err"`
	OK    int    `json:"ok"` // the reader RuleName
	P     int    `json:"p"`
	Panic int    `json:"panic"`
}

func (r *nameRow) run() {
	r.Panic = b2i(guard(func() {
		r.Err = b2i(tok.CheckRuleName(strOf(r.T)) != nil)
		s := tok.NewScanner(strOf(r.T))
		r.OK = b2i(s.Use(tok.RuleName()) == nil)
		r.P = int(s.Mark())
	}))
}

// gramRow works with a grammar struct.  Pre holds the names and Rd the readers
// (0: nil) that the rules have before.
type gramRow struct {
	Kind   string   `json:"kind"`
	G      int      `json:"g"`
	Pre    []string `json:"pre"`
	Rd     []int    `json:"rd"`
	Fields []field  `json:"fields"`
	PreB   [][]int  `json:"preb"`
	TagB   [][]int  `json:"tagb"`  // tags of the rule fields
	What   []string `json:"what"`  // descriptions of the readers
	Set    []string `json:"set"`   // error of SetRuleNames
	First  string   `json:"first"` // field named in that error
	Names  []string `json:"names"`
	NameB  [][]int  `json:"nameb"`
	Coll   []int    `json:"coll"` // which rules are collected, 0: something else
	Chk    int      `json:"chk"`
	Lines  []string `json:"lines"`
	Must   []int    `json:"must"` // panics of MustSetRuleNames and MustCheckRules
	Panic  int      `json:"panic"`
}

var ruleReaders = []tok.Reader{nil, tok.Lit("x"), tok.Zom(tok.WS()), tok.Seq('a', "b"), tok.Any("a", tok.Digit()), tok.AtEnd()}

func (r *gramRow) fill(g gramCase) {
	for i, rule := range g.rules() {
		rule.Name = r.Pre[i%len(r.Pre)]
		rule.Reader = ruleReaders[r.Rd[i%len(r.Rd)]]
	}
}

func (r *gramRow) run() {
	g := gramCases[r.G]()
	r.Fields = g.fields()
	r.PreB, r.TagB, r.NameB = [][]int{}, [][]int{}, [][]int{}
	r.What, r.Names, r.Lines, r.Set = []string{}, []string{}, []string{}, []string{}
	r.Coll, r.Must = []int{}, []int{}
	r.fill(g)
	for _, f := range r.Fields {
		if f.Kind == "rule" {
			r.TagB = append(r.TagB, bytesOf(f.Tag))
		}
	}
	full := true
	for _, rule := range g.rules() {
		r.PreB = append(r.PreB, bytesOf(rule.Name))
		if rule.Reader == nil {
			r.What = append(r.What, "nil")
			full = false
		} else {
			r.What = append(r.What, rule.Reader.What())
		}
	}
	pre := []string{}
	for _, rule := range g.rules() {
		pre = append(pre, rule.Name)
	}
	r.Panic = b2i(guard(func() {
		if e := tok.SetRuleNames(g); e != nil {
			r.Set = []string{e.Error()}
			for _, f := range r.Fields {
				if strings.Contains(e.Error(), f.Name) {
					r.First = f.Name
					break
				}
			}
		}
		for _, rule := range g.rules() {
			r.Names = append(r.Names, rule.Name)
			r.NameB = append(r.NameB, bytesOf(rule.Name))
		}
		for _, x := range tok.CollectRules(g) {
			at := 0
			for i, rule := range g.rules() {
				if rule == x {
					at = i + 1
				}
			}
			r.Coll = append(r.Coll, at)
		}
		r.Chk = b2i(tok.CheckRules(g) != nil)
		if full {
			r.Lines = tok.GrammarLines(g.Grammar())
		}
		h := gramCases[r.G]()
		r.fill(h)
		r.Must = append(r.Must, b2i(guard(func() { tok.MustSetRuleNames(h) })))
		r.Must = append(r.Must, b2i(guard(func() { tok.MustCheckRules(g) })))
	}))
	r.Pre = pre
	if len(pre) == 0 {
		r.Pre = []string{""}
	}
}

// ownRow looks at the rules of a bundled grammar.
type ownRow struct {
	Kind  string   `json:"kind"`
	G     string   `json:"g"`
	Tags  [][]int  `json:"tags"`
	Names [][]int  `json:"names"`
	Coll  []int    `json:"coll"` // CollectRules and Grammar(), as indices
	Gram  []int    `json:"gram"`
	Text  []string `json:"text"` // "name: description"
	Lines []string `json:"lines"`
	Chk   int      `json:"chk"`
	Panic int      `json:"panic"`
}

func (r *ownRow) run() {
	r.Tags, r.Names, r.Text, r.Lines, r.Coll, r.Gram = [][]int{}, [][]int{}, []string{}, []string{}, []int{}, []int{}
	r.Panic = b2i(guard(func() {
		var g tok.Grammar
		switch r.G {
		case "json":
			g = grammar.JSON()
		case "mxt":
			g = grammar.MXT()
		default:
			g = grammar.Lua()
		}
		v := reflect.ValueOf(g).Elem()
		at := map[*tok.Rule]int{}
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if f.Type != reflect.TypeOf(tok.Rule{}) || f.PkgPath != "" {
				continue
			}
			rule := v.Field(i).Addr().Interface().(*tok.Rule)
			r.Tags = append(r.Tags, bytesOf(f.Tag.Get("name")))
			r.Names = append(r.Names, bytesOf(rule.Name))
			text := rule.Name + ": "
			if rule.Reader != nil {
				text += rule.Reader.What()
			}
			r.Text = append(r.Text, text)
			at[rule] = len(r.Tags)
		}
		for _, x := range tok.CollectRules(g) {
			r.Coll = append(r.Coll, at[x])
		}
		for _, x := range g.Grammar() {
			r.Gram = append(r.Gram, at[x])
		}
		r.Chk = b2i(tok.CheckRules(g) != nil)
		r.Lines = tok.GrammarLines(g.Grammar())
	}))
}

func init() {
	kinds["own"] = func() row { return &ownRow{} }
	kinds["name"] = func() row { return &nameRow{} }
	kinds["gram"] = func() row { return &gramRow{} }
	cells := []string{"a", "Z", "m", "0", "9", "+", "-", ".", "_", " ", "\u00e4", "\xff", "@", "[", "`", "{", "/", ":", ",", "\n", "\u0660", "\u212a"}
	suites["C23"] = func(c *ctx) {
		for _, g := range []string{"json", "mxt", "lua"} {
			c.emit(&ownRow{Kind: "own", G: g})
		}
		name := func(s string) { c.emit(&nameRow{Kind: "name", T: bytesOf(s)}) }
		for r := rune(0x100); r < rune(c.n(0x700, 0x3100)); r++ { // letters, digits and marks of other scripts
			name("x" + string(r))
			if r%8 == 0 || c.thorough {
				name(string(r) + "x")
			}
		}
		for _, r := range oddRunes {
			name("x" + string(r) + "x")
			name(string(r))
		}
		for i := 0; i < c.n(600, 6000); i++ {
			r := rune(c.rnd.Intn(0x110000))
			name("x-" + string(r))
			name(string(r) + "x")
		}
		for _, s := range allTexts(cells, c.n(2, 3)) {
			name(s)
		}
		for b := 0; b < 256; b++ {
			name(string([]byte{byte(b)}))
			name("x" + string([]byte{byte(b)}))
			name("x" + string([]byte{byte(b)}) + "y")
			name(string(rune(b)) + "0")
			name("x" + string(rune(b)))
		}
		for i := 0; i < c.n(1000, 20000); i++ {
			s := ""
			good := cells[:9]
			for n := c.rnd.Intn(10); n > 0; n-- {
				s += good[c.rnd.Intn(len(good))]
			}
			if c.rnd.Intn(2) == 0 {
				k := c.rnd.Intn(len(s) + 1)
				s = s[:k] + cells[c.rnd.Intn(len(cells))] + s[k:]
			}
			name(s)
		}
		pool := []string{"", "", "a", "Old", "old-1", "1x", "a b", "\u00e4", "x.y", "ok", "ok", "ok2", "ok3", strings.Repeat("n", 40)}
		for _, n := range []int{21, 70, 300, 1100} {
			l := strings.Repeat("aZ0-._+", n/7)
			for _, s := range []string{l, l + "/", l + "\u00e4", l[:n/7] + " " + l, "1" + l} {
				name(s)
			}
		}
		few := len(gramCases) - bigGrams
		for i := 0; i < c.n(1500, 15000)+2*bigGrams; i++ {
			r := &gramRow{Kind: "gram", G: i % few}
			if i < 2*bigGrams {
				r.G = few + i%bigGrams
			}
			for k := 0; k < 8; k++ {
				if c.rnd.Intn(2) == 0 {
					r.Pre = append(r.Pre, "fine")
				} else {
					r.Pre = append(r.Pre, pool[c.rnd.Intn(len(pool))])
				}
				rd := 1 + c.rnd.Intn(len(ruleReaders)-1)
				if i%4 == 0 && c.rnd.Intn(4) == 0 {
					rd = 0
				}
				r.Rd = append(r.Rd, rd)
			}
			c.emit(r)
		}
	}
}
