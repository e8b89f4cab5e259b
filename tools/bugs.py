"""Planted bugs: small realistic changes that break one property, compile and
pass the existing tests.  mkseed.py confirms them and writes seeded/."""
BUGS = []
def bug(id, property, edits, demo, needs, breaks):
    if "package main" not in demo:
        body = demo
        imps = ['"fmt"', '"os"', '"github.com/aiq/tok"']
        for k in ("strings", "time", "errors", "unicode"):
            if k + "." in body: imps.append('"%s"' % k)
        if "grammar." in body: imps.append('"github.com/aiq/tok/grammar"')
        demo = "package main\n\nimport (\n" + "".join("\t%s\n" % i for i in imps) + ")\n\nvar _ = tok.NewScanner\nvar _ = fmt.Sprint\n\nfunc bad(f string, a ...interface{}) {\n\tfmt.Printf(f+\"\\n\", a...)\n\tos.Exit(1)\n}\n\nfunc main() {\n" + "\n".join("\t" + l for l in body.strip().splitlines()) + "\n}\n"
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))

bug("c01-move-clamp", "C01", [("scanner.go", """	if 0 > npos || npos > len(s.full) {
		return false
	}
	s.pos = npos""", """	if npos > len(s.full) && s.pos < len(s.full) {
		npos = len(s.full)
	} else if npos < 0 {
		return false
	} else if npos > len(s.full) {
		return false
	}
	s.pos = npos""")], """
s := tok.NewScanner("abc")
if s.Move(4) || s.Mark() != 0 { bad("moved to %d", s.Mark()) }
""", "a move beyond the end from inside of the text", "Move lands on the end instead of refusing")

bug("c02-ifbetween-width", "C02", [("scanner.go", '''	val, i := utf8.DecodeRuneInString(s.Tail())
	if !inRange(min, val, max) {
		return false
	}
	return s.Move(i)''', '''	val, i := utf8.DecodeRuneInString(s.Tail())
	if !inRange(min, val, max) {
		return false
	}
	return s.Move(utf8.RuneLen(val) + i - i)''')], '''
s := tok.NewScanner("\\xffabc")
if !s.IfBetween(0, 0x10FFFF) || s.Mark() != 1 { bad("moved to %d", s.Mark()) }
''', "an invalid byte in the text inside of the range", "IfBetween moves three bytes over a one byte invalid sequence")

bug("c03-tofold-lower", "C03", [("scanner.go", """	for n := 0; len(sub) >= i+n; n++ {
		prefix := sub[n : n+i]
		if strings.EqualFold(prefix, str) {
			return s.Move(n)
		}
	}
	return false""", """	low := strings.ToLower(str)
	if n := strings.Index(strings.ToLower(sub), low); n != -1 && len(low) == i {
		return s.Move(n)
	}
	return false""")], """
s := tok.NewScanner("\\u212axAB")
if !s.ToFold("ab") || s.Mark() != 4 { bad("at %d", s.Mark()) }
""", "a rune before the match whose lower case has another width", "ToFold stops at a wrong position")

bug("c04-whilebetween-fffd", "C04", [("scanner.go", """		if !inRange(min, v, max) {
			if i == 0 {
				return false
			}
			return s.Move(i)
		}
	}
	return s.ToEnd()
}

// ---------------------------------------------------------------------- match""", """		if v != utf8.RuneError && !inRange(min, v, max) {
			if i == 0 {
				return false
			}
			return s.Move(i)
		}
	}
	return s.ToEnd()
}

// ---------------------------------------------------------------------- match""")], """
s := tok.NewScanner("12\\xff3x")
if !s.WhileBetween('0', '9') || s.Mark() != 2 { bad("at %d", s.Mark()) }
""", "an invalid byte behind a run", "WhileBetween runs over invalid bytes")

bug("c05-revifany-last", "C05", [("scanner_rev.go", '''	for _, str := range strs {
		if s.RevIf(str) {
			return true
		}
	}
	return false''', '''	best := -1
	for i, str := range strs {
		if strings.HasSuffix(s.Head(), str) && (best == -1 || len(str) > len(strs[best])) {
			best = i
		}
	}
	return best != -1 && s.RevIf(strs[best])''')], '''
s := tok.NewRevScanner("abc")
if !s.RevIfAny([]string{"c", "bc"}) || s.Mark() != 2 { bad("at %d", s.Mark()) }
''', "two alternatives of which the later one is longer", "RevIfAny takes the longest instead of the first alternative")

bug("c06-revwhile-start", "C06", [("scanner_rev.go", '''	itr := makeRevItr(s.Head())
	for itr.next() {
		if !check(itr.Val) {
			if itr.pos() == 0 {
				return false
			}
			return s.Move(-itr.pos())
		}
	}

	return s.Move(-itr.pos())''', '''	itr := makeRevItr(s.Head())
	for itr.next() {
		if !check(itr.Val) {
			if itr.pos() == 0 {
				return false
			}
			return s.Move(-itr.pos())
		}
	}

	return false''')], '''
s := tok.NewRevScanner("aaa")
if !s.RevWhileMatch(func(r rune) bool { return r == 'a' }) || s.Mark() != 0 { bad("at %d", s.Mark()) }
''', "all of the text before the cursor matches", "RevWhileMatch does not move if the run reaches the start")

bug("c07-scanstring-zero", "C07", [("intl.go", '''	for i := range str {
		if count == n {
			return str[:i], true
		}
		count++
	}
	return str, count == n''', '''	for i, r := range str {
		if count == n {
			return str[:i], true
		}
		if r == utf8.RuneError {
			return str[:i], false
		}
		count++
	}
	return str, count == n''')], '''
s := tok.NewScanner("a\\uFFFDb")
if v, ok := s.ScanString(3); !ok || v != "a\\uFFFDb" { bad("%q %v", v, ok) }
''', "an encoded U+FFFD among the next n runes", "ScanString refuses text with U+FFFD")

bug("c08-plus-sign", "C08", [("read.go", """	if n == -1 {
		s.ToMarker(marker)
		return 0, s.ErrorFor("integer")""", """	if n == -1 {
		if neg {
			s.ToMarker(marker)
		}
		return 0, s.ErrorFor("integer")""")], """
s := tok.NewScanner("+x")
if _, err := s.ReadInt(10, 32); err == nil || s.Mark() != 0 { bad("at %d", s.Mark()) }
""", "a plus sign without a digit behind it", "ReadInt leaves the scanner behind the sign after an error")

bug("c09-bool-star", "C09", [("read.go", 's.IfAny("true", "True", "TRUE")', 's.IfAny("true", "True") || s.IfFold("TRUE")')], '''
s := tok.NewScanner("tRUe")
if _, err := s.ReadBool("*"); err == nil { bad("read %q", s.Head()) }
''', 'a mixed case spelling with the format "*"', "ReadBool accepts spellings that are not in the format")

bug("c30-crlf", "C30", [("scanner.go", 'lines := strings.Split(strings.ReplaceAll(s.Head(), "\\r\\n", "\\n"), "\\n")', 'lines := strings.Split(strings.ReplaceAll(strings.ReplaceAll(s.Head(), "\\r\\n", "\\n"), "\\r", "\\n"), "\\n")')], '''
s := tok.NewScanner("a\\rb")
s.ToEnd()
if l, c := s.LineCol(4); l != 1 || c != 4 { bad("%d %d", l, c) }
''', "a carriage return without a newline before the cursor", "LineCol counts a lone carriage return as a line end")

bug("c29-tomarker-silent", "C29", [("scanner.go", '''	s.pos = int(m)
	if s.Tracker != nil {''', '''	back := int(m) < s.pos
	s.pos = int(m)
	if s.Tracker != nil && back {''')], '''
s := tok.NewScanner("abc")
b := &tr{}
s.Tracker = b
s.Move(1)
s.ToEnd()
if b.m != 3 { bad("tracker knows %d", b.m) }
'''.join(["", ""]) if False else '''
package main

import (
	"fmt"
	"os"

	"github.com/aiq/tok"
)

type tr struct{ m tok.Marker }

func (t *tr) Update(m tok.Marker) { t.m = m }

func main() {
	s := tok.NewScanner("abc")
	b := &tr{}
	s.Tracker = b
	s.Move(1)
	s.ToEnd()
	if b.m != 3 {
		fmt.Println("tracker knows", b.m)
		os.Exit(1)
	}
}
''', "a forward move through ToMarker or ToEnd with a coupled tracker", "the tracker is not told about forward moves of ToMarker")

bug("c10-tokenizeuse", "C10", [("token.go", """	err := r.Read(s)
	if err != nil {
		s.ToMarker(a)
	}
	b := s.Mark()
	return MakeToken(a, b), err""", """	err := r.Read(s)
	b := s.Mark()
	if err != nil && b < a {
		s.ToMarker(a)
	}
	return MakeToken(a, b), err""")], """
package main

import (
	"errors"
	"fmt"
	"os"

	"github.com/aiq/tok"
)

type half struct{}

func (half) What() string { return "half" }
func (half) Read(s *tok.Scanner) error {
	s.Move(1)
	return errors.New("half")
}

func main() {
	s := tok.NewScanner("abc")
	if _, err := s.CaptureUse(half{}); err == nil || s.Mark() != 0 {
		fmt.Println("at", s.Mark())
		os.Exit(1)
	}
}
""", "a reader of the user that moves and then fails, used through TokenizeUse or CaptureUse", "the scanner stays moved after the error")

bug("c10-skipseq-skip", "C10", [("reader.go", """	if err != nil {
		s.ToMarker(m)
	}
	return err
}

func (r *skipSeqReader) What()""", """	if err != nil && len(r.readers) > 1 {
		s.ToMarker(m)
	}
	return err
}

func (r *skipSeqReader) What()""")], """
s := tok.NewScanner("  b")
if err := tok.SkipWSSeq("a").Read(s); err == nil || s.Mark() != 0 { bad("at %d", s.Mark()) }
""", "a skip sequence of one reader that fails behind skipped text, read without Use", "SkipSeq leaves the scanner behind the skipped text")

bug("c11-skip-at-end", "C11", [("reader.go", """		err = sub.Read(s)
		if err == nil {
			err = r.skip.Read(s)
		}""", """		err = sub.Read(s)
		if err == nil && !s.AtEnd() {
			err = r.skip.Read(s)
		}""")], """
s := tok.NewScanner(".a")
if err := s.Use(tok.SkipSeq(tok.Lit("."), "a")); err == nil { bad("at %d", s.Mark()) }
""", "a skipper that has to match, at the end of the text", "SkipSeq succeeds without the last skip")

bug("c11-zom-opt", "C11", [("reader.go", """	return &zomReader{r}""", """	if o, ok := r.(*optReader); ok {
		return o // zero or more of an option is the option
	}
	return Reader(&zomReader{r})""")], """
s := tok.NewScanner("aaa")
if err := s.Use(tok.Zom(tok.Opt("a"))); err != nil || s.Mark() != 3 { bad("at %d", s.Mark()) }
""", "Zom of an Opt", "Zom(Opt(x)) reads at most one x")

bug("c12-body-empty", "C12", [("reader.go", """func (r *toReader) Read(s *Scanner) error {
	m := s.Mark()
	for ok := true; ok; ok = s.MoveRunes(1) {""", """func (r *toReader) Read(s *Scanner) error {
	m := s.Mark()
	for ok := true; ok; ok = s.Move(1) {""")], """
s := tok.NewScanner("\\u00c3\\u00a4")
r := tok.To(tok.Match("x", func(r rune) bool { return r == 0xFFFD }))
if err := s.Use(r); err == nil { bad("at %d", s.Mark()) }
""", "a search for a rune test that accepts U+FFFD over multi-byte text", "To stops inside of an encoded rune")

bug("c12-not-opt", "C12", [("reader.go", """	m := s.Mark()
	err := r.sub.Read(s)
	s.ToMarker(m)
	return err
}

func (r *atReader) What()""", """	m := s.Mark()
	err := r.sub.Read(s)
	if s.Mark() < Marker(len(s.full)) {
		s.ToMarker(m)
	}
	return err
}

func (r *atReader) What()""")], """
s := tok.NewScanner("ab")
if err := s.Use(tok.At(tok.Lit("ab"))); err != nil || s.Mark() != 0 { bad("at %d", s.Mark()) }
""", "a lookahead that reaches the end of the text", "At moves the scanner")

bug("c14-later", "C14", [("error.go", "	return e.Marker >= oth.Marker", "	return e.Marker > oth.Marker || oth.What == \"\"")], """
s := tok.NewScanner("x")
err := s.Use(tok.Any("a", "b"))
if re, ok := err.(tok.ReadError); !ok || re.What != `"b"` { bad("%v", err) }
""", "two alternatives that fail at the same position", "the first instead of the last of the deepest errors is reported")

bug("c14-seq-pos", "C14", [("reader.go", """			s.ToMarker(m)
			err = e
			break
		}
	}
	return err""", """			s.ToMarker(m)
			if re, ok := e.(ReadError); ok && int(re.Marker) == len(s.full) {
				re.Marker = m
				err = re
			} else {
				err = e
			}
			break
		}
	}
	return err""")], """
s := tok.NewScanner("xab")
err := s.Use(tok.Seq("x", "ab", "c"))
if re, ok := err.(tok.ReadError); !ok || re.Marker != 3 { bad("%v", err) }
""", "a sequence that fails at the end of the text", "the error does not have the position of the part that failed")

bug("c15-beg-trim", "C15", [("reader.go", """		r.end.reader.str = s.Get(t)""", """		r.end.reader.str = strings.TrimRight(s.Get(t), " ")""")], """
beg, end := tok.Janus("x", tok.Many(tok.AnyRune("a ")))
s := tok.NewScanner("a -a b")
if err := s.Use(tok.Seq(beg, "-", end, "b")); err != nil { bad("%v", err) }
""", "a begin that matches text with a space at its end", "the end reads another string")

bug("c16-update", "C16", [("tracker.go", """		if seg.to <= m {
			b.segments = b.segments[:i]""", """		if seg.from < m {
			b.segments = b.segments[:i]""")], """
s := tok.NewScanner("ac")
b := s.NewBasket()
r := tok.Seq(tok.Pick(tok.Opt("x"), b, "opt"), tok.Any(tok.Seq("a", "b"), "ac"))
if err := s.Use(r); err != nil || b.String() != "opt[0-0)" { bad("%v", b) }
""", "an empty pick at a position to which the scanner is set back later", "a pick of the committed parse is lost")

bug("c16-pick-failed", "C16", [("tracker.go", """	for i := len(b.segments); i > 0; i-- {
		seg := b.segments[i-1]
		if seg.to <= m {
			b.segments = b.segments[:i]
			return
		}
	}
	b.segments = []Segment{}""", """	if len(b.segments) == 0 || b.segments[len(b.segments)-1].to <= m {
		return
	}
	keep := []Segment{}
	for _, seg := range b.segments {
		if seg.to < m {
			keep = append(keep, seg)
		}
	}
	b.segments = keep""")], """
s := tok.NewScanner("abd")
b := s.NewBasket()
r := tok.Seq(tok.Pick(tok.Lit("a"), b, "x"), tok.Any(tok.Seq(tok.Pick(tok.Lit("b"), b, "y"), "c"), "bd"))
if err := s.Use(r); err != nil || b.String() != "x[0-1)" { bad("%v", b) }
""", "a pick that ends exactly where an abandoned alternative with a pick of its own began", "a pick of the committed parse is lost")

bug("c17-rule-map-twice", "C17", [("grammar.go", """	r.Reader = Map(r.Reader, f)""", """	sub := r.Reader
	if m, ok := sub.(*mapReader); ok {
		sub = m.sub
	}
	r.Reader = Map(sub, f)""")], """
n := 0
r := &tok.Rule{Name: "a", Reader: tok.Lit("a")}
r.Map(func(tok.Token) { n++ })
r.Map(func(tok.Token) { n += 10 })
tok.NewScanner("a").Use(r)
if n != 11 { bad("%d", n) }
""", "two functions mapped on one rule", "the first function is no longer called")

bug("c18-level-fail", "C18", [("monitor.go", """	err := r.sub.Read(s)
	r.log.Exit(entry, s.pos, err)
	return err""", """	from := s.pos
	err := r.sub.Read(s)
	to := s.pos
	if err == nil && to == from && s.AtEnd() {
		to = len(s.Head()) - len(s.Tail())
		r.log.Exit(entry, to, s.ErrorIfFalse(from == 0, r.info))
		return err
	}
	r.log.Exit(entry, to, err)
	return err""")], """
l := &tok.Log{}
tok.NewScanner("a").Use(tok.Seq("a", tok.Monitor(tok.AtEnd(), l, "m")))
if len(l.Entries) != 1 || l.Entries[0].Error != nil { bad("%v", l.Entries) }
""", "a monitored reader that matches the empty string at the end of the text", "the log shows an error for a successful read")

bug("c24-times", "C24", [("reader.go", """	sub := []string{"(>" + r.skip.What() + ">"}
	for _, sr := range r.readers {
		sub = append(sub, sr.What())
	}
	sub = append(sub, ")")
	return strings.Join(sub, " ")""", """	sub := []string{"(>" + r.skip.What() + ">"}
	for _, sr := range r.readers {
		if w := sr.What(); w != r.skip.What() {
			sub = append(sub, w)
		}
	}
	sub = append(sub, ")")
	return strings.Join(sub, " ")""")], """
w := tok.SkipSeq(tok.Zom("a"), tok.Zom("a"), "b").What()
if w != `(>*"a"> *"a" "b" )` { bad("%s", w) }
""", "a skip sequence with a part that looks like the skipper", "the description leaves a part out")

bug("c24-named-invalid", "C24", [("reader.go", """	if len(minMax)%2 != 0 {
		return InvalidReader("odd number of min-max values for BetweenAny: %d", len(minMax))
	}
""", """	if n := len(minMax); n%2 != 0 && n < 4 {
		return InvalidReader("odd number of min-max values for BetweenAny: %d", len(minMax))
	}
	minMax = minMax[:len(minMax)&^1]
""")], """
r := tok.BuildBetweenAny('a', 'b', 'c', 'd', 'e')
if !tok.HasInvalidReader(r.What()) { bad("%s", r.What()) }
""", "five or more range ends with an odd count", "an unusable argument gives a reader that reads")

bug("c28-any-last-first", "C28", [("reader.go", """type anyReader struct {
	readers []Reader
}""", """type anyReader struct {
	readers []Reader
	last    int // alternative that matched last
}"""), ("reader.go", """	for _, sub := range r.readers {
		if e := sub.Read(s); e == nil {
			return nil
		} else {""", """	for i := range r.readers {
		k := (i + r.last) % len(r.readers)
		if e := r.readers[k].Read(s); e == nil {
			if _, lit := r.readers[k].(litReader); lit && len(r.readers) == 2 {
				r.last = k
			}
			return nil
		} else {"""), ("reader.go", """		readers = append(readers, r)
	}
	return &anyReader{readers}
}

// AnyFold""", """		readers = append(readers, r)
	}
	return &anyReader{readers: readers}
}

// AnyFold"""), ("reader.go", """		readers = append(readers, Fold(s))
	}
	return &anyReader{readers}""", """		readers = append(readers, Fold(s))
	}
	return &anyReader{readers: readers}""")], """
r := tok.Any("ab", "a")
tok.NewScanner("ax").Use(r)
s := tok.NewScanner("ab")
s.Use(r)
if s.Mark() != 2 { bad("at %d", s.Mark()) }
""", "a choice of two texts, one the begin of the other, that is used again", "the alternative that matched last is tried first")

bug("c31-trace", "C31", [("reader.go", """	m := s.Mark()
	err := f(s)
	if err != nil {
		s.ToMarker(m)
	}
	return s.Since(m), err""", """	m := s.Mark()
	err := f(s)
	str := s.Since(m)
	if err != nil {
		s.ToMarker(m)
	}
	return str, err""")], """
s := tok.NewScanner("abc")
str, err := s.TraceUseFunc(func(s *tok.Scanner) error { s.Move(2); return s.ErrorFor("x") })
if err == nil || str != "" { bad("%q %v", str, err) }
""", "a function that moves and then fails", "TraceUseFunc returns the text of the failed read")

bug("c31-get", "C31", [("token.go", """	t, err := s.TokenizeUse(r)
	if err == nil {
		return s.Get(t), nil
	}
	return "", err""", """	t, err := s.TokenizeUse(r)
	if err == nil {
		return strings.ToValidUTF8(s.Get(t), "\\uFFFD"), nil
	}
	return "", err"""), ("token.go", 'import "fmt"', 'import (\n\t"fmt"\n\t"strings"\n)')], """
s := tok.NewScanner("a\\xff")
str, err := s.CaptureUse(tok.Many(tok.Not(tok.Lit("b"))))
if err != nil || str != "a\\xff" { bad("%q %v", str, err) }
""", "invalid bytes in the captured text", "the captured text differs from the text")

bug("c13-json-elements", "C13", [("grammar/json.go", "	g.Elements.Reader = Seq(&g.Element, Zom(Seq(Rune(','), &g.Element)))", "	g.Elements.Reader = Any(Seq(&g.Element, ',', &g.Elements), &g.Element)")], """
done := make(chan bool)
go func() {
	s := tok.NewScanner(strings.Repeat("[", 40) + strings.Repeat("]", 40))
	done <- s.Use(grammar.JSON()) == nil
}()
select {
case ok := <-done:
	if !ok { bad("not read") }
case <-time.After(30 * time.Second):
	bad("does not end")
}
""", "a deeply nested array", "each level of nesting doubles the time")

bug("c19-merge-empty", "C19", [("token.go", "	if t.from > oth.from {", "	if t.from > oth.from && (oth.Len() > 0 || t.Len() == 0) {"), ("token.go", "	if t.to < oth.to {", "	if t.to < oth.to && (oth.Len() > 0 || t.Len() == 0) {")], """
t := tok.MakeToken(2, 4).Merge(tok.MakeToken(7, 7))
if t.String() != "[2-7)" { bad("%v", t) }
""", "an empty token outside of the other", "the merged token does not cover both")

bug("c21-unstable", "C21", [("segment.go", """			return ai < bi
		},
	}
	sort.Stable(sorter)""", """			return ai < bi
		},
	}
	sort.Sort(sorter)""")], """
segs := []tok.Segment{}
for i := 0; i < 60; i++ {
	segs = append(segs, tok.Segment{Info: fmt.Sprint(i), Token: tok.MakeToken(tok.Marker(i%3), tok.Marker(i%3+2))})
}
tok.SortSegmentsByOrder(segs, nil)
last := -1
for _, s := range segs[:20] {
	n := 0
	fmt.Sscan(s.Info, &n)
	if n < last { bad("%v", segs) }
	last = n
}
""", "more than twelve segments with equal ranges", "segments of equal range change their order")

bug("c22-empty", "C22", [("segment.go", "		res = append(res, seg)\n	}\n	if rest.Len() > 0 {", "		if seg.Len() > 0 || left.Len() > 0 {\n			res = append(res, seg)\n		}\n	}\n	if rest.Len() > 0 {")], """
list := []tok.Segment{{Info: "a", Token: tok.MakeToken(0, 2)}, {Info: "b", Token: tok.MakeToken(2, 2)}}
res, err := tok.NewScanner("abcd").Segmentate(list)
if err != nil || len(res) != 3 || res[1].Info != "b" { bad("%v %v", res, err) }
""", "an empty segment directly behind another", "a given segment is lost")

bug("c22-scanner-pos", "C22", [("segment.go", '	rest := Segment{"", MakeToken(0, Marker(len(s.full)))}', '	rest := Segment{"", MakeToken(0, Marker(len(s.Head())+len(s.Tail())))}\n	if s.AtEnd() {\n		rest.Token = MakeToken(0, s.Mark())\n	} else if len(segments) > 0 && segments[0].After(MakeToken(0, s.Mark())) {\n		rest.Token = MakeToken(s.Mark(), Marker(len(s.full)))\n	}')], """
s := tok.NewScanner("abcd")
s.Move(1)
res, err := s.Segmentate([]tok.Segment{{Info: "a", Token: tok.MakeToken(2, 3)}})
if err != nil || len(res) != 3 || res[0].Token != tok.MakeToken(0, 2) { bad("%v %v", res, err) }
""", "a scanner that was moved, and a first segment behind the cursor", "the text before the cursor is not part of the result")

bug("c23-rulename", "C23", [("grammar.go", '		sub: Seq(BetweenAny("a-zA-Z"), Zom(Any(BetweenAny("a-zA-Z0-9"), AnyRune("+-._")))),', '		sub: Seq(BetweenAny("a-zA-Z"), Zom(BetweenAny("a-zA-Z0-9+-._-_"))),')], """
if tok.CheckRuleName("a,b") == nil { bad("a,b is accepted") }
""", "a comma in a name", "a name with a comma is accepted")

bug("c23-settags", "C23", [("grammar.go", """		if name == "" {
			continue
		}""", """		if name == "" {
			break
		}""")], """
package main

import (
	"fmt"
	"os"

	"github.com/aiq/tok"
)

type gram struct {
	A tok.Rule `name:"a"`
	B tok.Rule
	C tok.Rule `name:"c"`
}

func (g *gram) Read(s *tok.Scanner) error { return nil }
func (g *gram) What() string              { return "gram" }
func (g *gram) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

func main() {
	g := &gram{}
	tok.SetRuleNames(g)
	if g.C.Name != "c" {
		fmt.Println("rule C has no name")
		os.Exit(1)
	}
}
""", "a rule without a tag before one with a tag", "rules behind an untagged one are not named")

bug("c25-hex", "C25", [("grammar/json.go", "Seq('u', Times(4, &g.Hex)))", "Seq('u', Times(3, &g.Hex), Opt(&g.Hex)))")], """
s := tok.NewScanner(`"\\u123"`)
if err := s.Use(grammar.JSON()); err == nil && s.AtEnd() { bad("a short escape is read") }
""", "a \\u escape of three digits", "a text that is no JSON is read")

bug("c25-astral", "C25", [("grammar/json.go", 'g.Character.Reader = Any(Holey(\' \', utf8.MaxRune, `"\\`)', 'g.Character.Reader = Any(Holey(\' \', utf8.MaxRune&^utf8.RuneSelf, `"\\`)')], """
s := tok.NewScanner("\\"\\U0010FFFF\\"")
if err := s.Use(grammar.JSON()); err != nil { bad("%v", err) }
""", "one of the last code points in a string", "a JSON text is not read")

bug("c26-wordchar", "C26", [("grammar/mxt.go", "	g.WordChar.Reader = Between(0x21, utf8.MaxRune)", "	g.WordChar.Reader = Holey(0x21, utf8.MaxRune, \"\\u00a0\\ufeff\")")], """
s := tok.NewScanner("// a\\u00a0b -->\\ntext")
r := grammar.MXT()
b := s.NewBasketFor(r)
if err := s.Use(r); err != nil || !strings.Contains(b.String(), "name[3-7)") { bad("%v %v", err, b) }
""", "a no-break space in a name", "the name of the chunk is cut")

bug("c16-basketfor", "C16", [("tracker.go", """	b := &Basket{}
	b.PickWith(g.Grammar()...)
	s.Tracker = b
	return b""", """	b := &Basket{}
	b.PickWith(g.Grammar()...)
	if s.Tracker == nil {
		s.Tracker = b
	}
	return b""")], """
g := grammar.JSON()
s := tok.NewScanner("[]")
s.NewBasket()
b := s.NewBasketFor(g)
s.Use(g)
if b.String() != "ws[0-0);ws[1-1);array[0-2);value[0-2);ws[2-2);element[0-2)" && s.Tracker != tok.Tracker(b) { bad("%v", b) }
""", "a scanner that has a tracker already", "the new basket is not coupled")

bug("c24-anyinvalid", "C24", [("reader.go", """		if HasInvalidReader(str) {
			return true
		}
	}
	return false""", """		if !HasInvalidReader(str) {
			continue
		}
		return len(strs) == 1 || str != strs[len(strs)-1]
	}
	return false""")], """
if !tok.AnyHasInvalidReader([]string{"a", tok.Seq(1).What()}) { bad("not found") }
""", "the only invalid reader is the last of several", "AnyHasInvalidReader misses it")

bug("c29-toend", "C29", [("scanner.go", """func (s *Scanner) ToEnd() bool {
	return s.ToMarker(Marker(len(s.full)))""", """func (s *Scanner) ToEnd() bool {
	s.pos = len(s.full)
	return true""")], """
package main

import (
	"fmt"
	"os"

	"github.com/aiq/tok"
)

type tracker struct{ m tok.Marker }

func (t *tracker) Update(m tok.Marker) { t.m = m }

func main() {
	t := &tracker{}
	s := tok.NewScanner("abc")
	s.Tracker = t
	s.WhileMatch(func(rune) bool { return true })
	if s.Mark() != t.m {
		fmt.Println("the tracker knows", t.m, "the cursor is", s.Mark())
		os.Exit(1)
	}
}
""", "a call that moves to the end of the text", "the tracker is not told")

bug("c31-since", "C31", [("token.go", "	return s.Get(MakeToken(m, s.Mark()))", "	if s.Mark() > m {\n		return s.full[m:s.pos]\n	}\n	return \"\"")], """
s := tok.NewScanner("abcd")
s.Move(3)
str, ok := s.Trace(func() bool { return s.RevIf("bc") })
if !ok || str != "bc" { bad("%q", str) }
""", "a function that moves back", "Trace returns no text")

bug("c04-while", "C04", [("scanner.go", """	end := s.Mark()
	return start < end""", """	end := s.Mark()
	return start != end""")], """
s := tok.NewScanner("aab")
s.ToEnd()
if s.While(func() bool { return s.RevIfRune('b') }) { bad("moved back and reports true") }
""", "a function that moves back", "While returns true though the cursor is before its start")

bug("c15-once", "C15", [("reader.go", """func (r *janusEndReader) Read(s *Scanner) error {
	return r.reader.Read(s)""", """func (r *janusEndReader) Read(s *Scanner) error {
	err := r.reader.Read(s)
	if err == nil && s.AtEnd() {
		r.reader.str = ""
	}
	return err"""), ("reader.go", "		reader: litReader{\"\"},", "		reader: litReader{str: \"\"},")], """
beg, end := tok.Janus("j", tok.Many('a'))
s := tok.NewScanner("aa-aa")
err := s.Use(tok.Seq(beg, '-', tok.At(end), end, tok.AtEnd()))
if err != nil { bad("%v", err) }
""", "a lookahead with the end that reaches the end of the text", "the second read of the end matches the empty string")

bug("c30-cache", "C30", [("scanner.go", """	lines := strings.Split(strings.ReplaceAll(s.Head(), "\\r\\n", "\\n"), "\\n")""", """	lines := strings.Split(strings.ReplaceAll(strings.TrimSuffix(s.Head(), "\\r"), "\\r\\n", "\\n"), "\\n")""")], """
s := tok.NewScanner("a\\r\\nb")
s.Move(2)
if l, c := s.LineCol(1); l != 1 || c != 3 { bad("%d %d", l, c) }
""", "a cursor between CR and LF", "the column is too small")


bug("c20-leafs-empty", "C20", [("graph.go", """	if len(n.Nodes) == 0 {
		*leafs = append(*leafs, n.Segment)
	} else {""", """	if len(n.Nodes) == 0 {
		if n.Len() > 0 || len(*leafs) == 0 {
			*leafs = append(*leafs, n.Segment)
		}
	} else {""")], """
seg := func(i string, a, b tok.Marker) tok.Segment { return tok.Segment{Info: i, Token: tok.MakeToken(a, b)} }
g := tok.BuildGraph("r", []tok.Segment{seg("a", 0, 2), seg("b", 3, 3)})
if len(g.Leafs()) != 2 { bad("%v", g.Leafs()) }
""", "an empty segment behind another", "Leafs misses it")

bug("c20-equal-shift", "C20", [("graph.go", "	if n.Segment != oth.Segment {", "	if n.Info != oth.Info || n.Len() != oth.Len() {")], """
seg := func(i string, a, b tok.Marker) tok.Segment { return tok.Segment{Info: i, Token: tok.MakeToken(a, b)} }
g := tok.BuildGraph("r", []tok.Segment{seg("a", 0, 2), seg("b", 3, 5)})
h := tok.BuildGraph("r", []tok.Segment{seg("a", 0, 1), seg("a", 3, 5)})
k := tok.BuildGraph("r", []tok.Segment{seg("a", 1, 3), seg("b", 4, 6)})
if g.Equal(h) || g.Equal(k) { bad("equal") }
""", "two graphs of the same shape at other positions", "graphs that differ are equal")

bug("c20-append-order", "C20", [("graph.go", "	return s[i].Before(s[j].Token)", "	return s[i].Before(s[j].Token) && !s[j].Before(s[i].Token)"), ("graph.go", "	sort.Stable(nodeByPos(a.Nodes))", "	sort.Stable(nodeByPos(a.Nodes[len(a.Nodes)/16:]))")], """
segs := []tok.Segment{}
for i := 40; i > 0; i-- {
	segs = append(segs, tok.Segment{Info: "a", Token: tok.MakeToken(tok.Marker(2*i), tok.Marker(2*i+1))})
}
g := tok.BuildGraph("r", segs)
last := tok.Token{}
for _, n := range g.Root.Nodes {
	if !last.Before(n.Token) { bad("%v before %v", last, n.Token) }
	last = n.Token
}
""", "more than fifteen siblings, appended from the back", "siblings are not in text order")

bug("c27-longstring", "C27", [("grammar/lua.go", "	longEnd := Seq(']', strTail, ']')", "	longEnd := Any(Seq(']', strTail, ']'), Seq(']', Opt(\"=\"), strTail, ']'))")], """
s := tok.NewScanner("a = [==[ ]===] ]==]")
s.Use(grammar.Lua())
if !s.AtEnd() { bad("stops at %d", s.Mark()) }
""", "a closing bracket of a higher level inside of a long string", "the string ends too early")

bug("c27-table", "C27", [("grammar/lua.go", "	g.FieldSep.Reader = AnyRune(\",;\")", "	g.FieldSep.Reader = Any(Seq(',', Opt(';')), ';')")], """
s := tok.NewScanner("a = {1,;2}")
s.Use(grammar.Lua())
if s.AtEnd() { bad("read") }
""", "two different separators between fields", "a text that is no Lua is read")

bug("c27-hexfloat", "C27", [("grammar/lua.go", "	exponent := Seq(AnyRune(\"eE\"), Opt(AnyRune(\"+-\")), Many(Digit()))", "	exponent := Seq(AnyRune(\"eE\"), Opt(AnyRune(\"+-\")), Times(2, Opt(Digit())))")], """
s := tok.NewScanner("1e100")
if err := s.Use(grammar.LuaNumeral()); err != nil || !s.AtEnd() { bad("%v %d", err, s.Mark()) }
""", "an exponent of three digits", "a numeral is cut")

bug("c26-salt-spaces", "C26", [("grammar/mxt.go", "	g.Salt.Reader = Seq(Many(' '), saltHead, Zom(' '))", "	g.Salt.Reader = Seq(' ', saltHead, Zom(' '))")], """
s := tok.NewScanner("// a -->  X\\ntext")
if err := s.Use(grammar.MXT()); err != nil || !s.AtEnd() { bad("%v %d", err, s.Mark()) }
""", "two spaces between arrow and salt", "the document is not read")

bug("c02-fold-ascii", "C02", [("scanner.go", '''	i := len(str)
	tail := s.Tail()
	if len(tail) >= i && strings.EqualFold(tail[:i], str) {
		return s.Move(i)
	}
	return false''', '''	i := len(str)
	tail := s.Tail()
	if i == 1 && str[0] < utf8.RuneSelf {
		// a single ASCII character differs only in one bit
		if len(tail) > 0 && tail[0]|0x20 == str[0]|0x20 {
			return s.Move(1)
		}
		return false
	}
	return len(tail) >= i && strings.EqualFold(tail[:i], str) && s.Move(i)''')], '''
s := tok.NewScanner("{a")
if s.IfFold("[") || s.Mark() != 0 { bad("[ matched {") }
''', "a one byte string that is not a letter and its partner 32 code points away", "IfFold matches characters that are not equal under case folding")

bug("c03-to-memo", "C03", [("scanner.go", '''type Scanner struct {
	full    string
	pos     int
''', '''type Scanner struct {
	full    string
	pos     int
	found   string
	foundAt int
'''), ("scanner.go", '''	i := strings.Index(s.Tail(), str)
	if i != -1 {
		return s.Move(i)
	}
	return false
}

// ------------------------------------------------------------------------ fold''', '''	if str != "" && s.found == str && s.foundAt >= s.pos {
		return s.Move(s.foundAt - s.pos)
	}
	s.found, s.foundAt = str, strings.Index(s.Tail(), str)
	if s.foundAt == -1 {
		return false
	}
	s.foundAt += s.pos
	return s.Move(s.foundAt - s.pos)
}

// ------------------------------------------------------------------------ fold''')], '''
s := tok.NewScanner("ab-cd-ef")
s.Move(4)
if !s.To("-") || s.Mark() != 5 { bad("first search at %d", s.Mark()) }
s.ToStart()
if !s.To("-") || s.Mark() != 2 { bad("moved to %d", s.Mark()) }
''', "the same search repeated after the cursor moved back over an earlier appearance", "To jumps to a later appearance that it remembered from an earlier search")

bug("c05-fold-memo", "C05", [("scanner.go", '''type Scanner struct {
	full    string
	pos     int
''', '''type Scanner struct {
	full    string
	pos     int
	folded  string
	foldTo  int
'''), ("scanner_rev.go", '''	head := s.Head()
	if len(head) >= i && strings.EqualFold(head[len(head)-i:], str) {
		return s.Move(-i)
	}
	return false''', '''	head := s.Head()
	again := i > 0 && len(s.folded) == i && s.foldTo == len(head)
	if again || len(head) >= i && strings.EqualFold(head[len(head)-i:], str) {
		s.folded, s.foldTo = str, len(head)
		return s.Move(-i)
	}
	return i < 0''')], '''
s := tok.NewRevScanner("abC")
if !s.RevIfFold("bc") || s.Mark() != 1 { bad("no match") }
s.ToEnd()
if s.RevIfFold("xy") || s.Mark() != 3 { bad("xy matched, moved to %d", s.Mark()) }
''', "a second RevIfFold of the same length at the position of an earlier match", "RevIfFold accepts other strings where one matched before")

bug("c06-revto-first", "C06", [("scanner_rev.go", '''	itr := makeRevItr(s.Head())
	for itr.next() {
		if strings.HasSuffix(itr.Str, str) {
			return s.Move(-itr.pos())
		}
	}

	return false''', '''	itr := makeRevItr(s.Head())
	for itr.next() {
		if strings.HasSuffix(itr.Str, str) {
			return s.Move(-itr.pos())
		} else if !strings.Contains(itr.Str[:len(itr.Str)/2], str) && len(itr.Str) < 2*len(str) {
			break
		}
	}
	return itr.pos() < 0''')], '''
s := tok.NewRevScanner("-ab--cd")
if !s.RevTo("-ab-") || s.Mark() != 4 { bad("moved to %d", s.Mark()) }
''', "an appearance that starts in the first half of a short head", "RevTo gives up although str appears in the head")

bug("c07-exact", "C07", [("scanner.go", '''	if n > 0 {
		tail := s.Tail()
		for i := range tail {''', '''	if n > 0 {
		tail := s.Tail()
		if len(tail) <= n {
			return len(tail) == n && s.ToEnd()
		}
		for i := range s.Tail() {''')], '''
s := tok.NewScanner("a\u00e4")
if s.MoveRunes(3) || s.Mark() != 0 { bad("moved 3 of 2 runes to %d", s.Mark()) }
''', "as many bytes left as runes are asked for, some of them in multi byte runes", "MoveRunes succeeds with less runes than n")

bug("c07-start", "C07", [("scanner.go", '''				return s.Move(-(itr.pos() + itr.vi))
			}
		}
		return false''', '''				return s.Move(-(itr.pos() + itr.vi))
			}
		}
		return c < 0 && len(itr.Str) == 0 && n == c-1 && s.ToStart()''')], '''
s := tok.NewRevScanner("a\u00e4")
if s.MoveRunes(-3) || s.Mark() != 3 { bad("moved to %d", s.Mark()) }
''', "one rune more than there are before the cursor", "MoveRunes moves to the start instead of refusing")

bug("c08-hex-upper", "C08", [("read.go", """		return (r - 'A') + 10
	}
	return -1
}""", """		return (r - 'A') + 10
	} else if r == 0xFF21 {
		return 10
	}
	return -1
}"""), ("read.go", """	s.Move(n + 1)
	return i64, nil""", """	return i64, s.ErrorIfFalse(s.Move(n+1), "integer")""")], '''
s := tok.NewScanner("1\uff21")
v, err := s.ReadInt(16, 32)
if err != nil || v != 1 || s.Mark() != 1 { bad("%d %v %d", v, err, s.Mark()) }
''', "a full width letter A after hex digits", "ReadInt reads a rune that is no hex digit")

bug("c09-default", "C09", [("read.go", '''	if s.If(trueStr) {
		return true, nil
	} else if s.If(falseStr) {
		return false, nil
	}
	return false, s.ErrorFor("bool")
}

// ReadInt''', '''	val, ok := s.ScanString(len(trueStr))
	if ok && val == trueStr {
		return true, nil
	}
	if ok && val == falseStr[:len(trueStr)] {
		ok = s.If(falseStr[len(trueStr):])
		if ok {
			return false, nil
		}
	}
	return false, s.ErrorFor("bool")
}

// ReadInt''')], '''
s := tok.NewScanner("falsy")
if _, err := s.ReadBool("l"); err == nil || s.Mark() != 0 { bad("%v, at %d", err, s.Mark()) }
''', "a text that is no bool, at least four runes long", "a failed ReadBool leaves the scanner four runes later")

bug("c10-times-mark", "C10", [("reader.go", '''	m := s.Mark()
	for i := 0; i < r.n; i++ {
		if e := r.sub.Read(s); e != nil {
			s.ToMarker(m)
			return e
		}
	}
	return nil''', '''	for i := r.n; i > 0; i-- {
		m := s.Mark()
		if e := r.sub.Read(s); e != nil {
			s.ToMarker(m)
			return e
		}
	}
	return nil''')], '''
s := tok.NewScanner("aab")
err := s.Use(tok.Seq(tok.Opt(tok.Times(3, tok.Rune('a'))), "aab"))
if err != nil || !s.AtEnd() { bad("%v at %d", err, s.Mark()) }
''', "Times that fails after the first repetition inside of Opt, Any, Zom or Not", "a failed Times leaves the repetitions it read")

bug("c11-fold-order", "C11", [("reader.go", '''	readers := []Reader{}
	for _, s := range list {
		readers = append(readers, Fold(s))
	}
	return &anyReader{readers}''', '''	readers := []Reader{}
	for _, s := range list {
		at := len(readers)
		for at > 0 && len(readers[at-1].What()) < len(s)+3 {
			at--
		}
		readers = append(readers, nil)
		copy(readers[at+1:], readers[at:])
		readers[at] = Fold(s)
	}
	return &anyReader{readers}''')], '''
s := tok.NewScanner("abc")
if err := s.Use(tok.AnyFold("a", "ABC")); err != nil || s.Mark() != 1 { bad("%v at %d", err, s.Mark()) }
''', "a list where a string is a prefix of a later one", "AnyFold takes the longest instead of the first match")

bug("c12-to-lit", "C12", [("reader.go", '''func (r *toReader) Read(s *Scanner) error {
	m := s.Mark()
''', '''func (r *toReader) Read(s *Scanner) error {
	if lit, ok := r.sub.(litReader); ok {
		return s.ErrorIfFalse(s.To(lit.str), r.What())
	}
	var m = s.Mark()
''')], '''
s := tok.NewScanner("\\u00e4\\xa4")
if err := s.Use(tok.To("\\xa4")); err != nil || s.Mark() != 2 { bad("%v at %d", err, s.Mark()) }
''', "a literal of continuation bytes that also appear inside of a rune", "To stops in the middle of a rune")

bug("c12-past-step", "C12", [("reader.go", '''	m := s.Mark()
	for ok := true; ok; ok = s.MoveRunes(1) {
		if e := r.sub.Read(s); e == nil {
			return nil
		}
	}
	s.ToMarker(m)
	return s.ErrorFor(r.What())''', '''	m := s.Mark()
	for ok := true; ok; ok = s.MoveRunes(1) {
		e := r.sub.Read(s)
		if e == nil {
			return nil
		}
		if re, isRead := e.(ReadError); isRead && re.Marker > s.Mark()+1 {
			s.ToMarker(re.Marker - 1)
		}
	}
	s.ToMarker(m)
	return s.ErrorFor(r.What())''')], '''
s := tok.NewScanner("aabaabaac")
if err := s.Use(tok.Past(tok.Seq("a", "a", "b", "a", "a", "c"))); err != nil || !s.AtEnd() { bad("%v at %d", err, s.Mark()) }
''', "a sequence that fails late and whose match starts inside of the part it read", "Past jumps over the start of the match")

bug("c13-many-guard", "C13", [("reader.go", '''	for {
		m := s.Mark()
		if r.Read(s) != nil || s.Mark() == m {
			return
		}
	}''', '''	m := s.Mark()
	for r.Read(s) == nil && s.Mark() != m {
	}'''), ("reader.go", '''	return s.ErrorIfFalse(start < end, r.What())''', '''	return s.ErrorIfFalse(end > start, r.What())''')], '''
done := make(chan bool)
go func() {
	tok.NewScanner("aab").Use(tok.Zom(tok.Opt('a')))
	close(done)
}()
select {
case <-done:
case <-time.After(3 * time.Second):
	bad("Zom does not end")
}
''', "a repetition whose reader first moves and later matches without moving", "Zom and Many do not end")

bug("c14-other", "C14", [("reader.go", '''		re, ok := e.(ReadError)
		if !ok {
			other = e
		} else if re.Later(deepest) {''', '''		re, ok := e.(ReadError)
		if !ok {
			other = e
		} else if !found || re.Marker > deepest.Marker && re.What != deepest.What {'''), ("reader.go", '''	var deepest ReadError
''', '''	deepest := ReadError{}
''')], '''
s := tok.NewScanner("aac")
err := s.Use(tok.Any(tok.Seq("a", "b"), tok.Seq("aa", "b")))
re, ok := err.(tok.ReadError)
if !ok || re.Marker != 2 { bad("%v", err) }
''', "two alternatives that miss the same thing at different depths", "Any reports the failure that is less deep")

bug("c15-same-length", "C15", [("reader.go", """	t, err := s.TokenizeUse(r.reader)
	if err == nil {
		r.end.reader.str = s.Get(t)
	}""", """	t, err := s.TokenizeUse(r.reader)
	if old := r.end.reader.str; err == nil && (t.Len() < 3 || t.Len() != len(old) || s.full[t.from] != old[0]) {
		r.end.reader.str = s.Get(t)
	}""")], '''
b, e := tok.Janus("x", tok.Many(tok.Between('a', 'z')))
if err := tok.NewScanner("abc").Use(b); err != nil { bad("%v", err) }
s := tok.NewScanner("axc-axc")
if err := s.Use(tok.Seq(b, "-", e)); err != nil { bad("%v", err) }
''', "two begin matches of the same length (three or more) that start with the same character", "the end expects the text of the former begin")

bug("c16-mid", "C16", [("tracker.go", '''		seg := b.segments[i-1]
		if seg.to <= m {''', '''		seg := b.segments[i-1]
		if seg.to <= m || (seg.from < m && m != 0 && seg.Len() > 2) {''')], '''
s := tok.NewScanner("xabcde")
b := s.NewBasket()
s.Move(1)
s.Use(tok.Pick(tok.Lit("abcd"), b, "p"))
s.Move(-2)
if len(b.Picked()) != 0 { bad("%v", b.Picked()) }
''', "the cursor moves back into the middle of a picked segment", "the basket keeps a segment that is not completely read")

bug("c24-monitor-what", "C24", [("monitor.go", '''func (r *monitorReader) What() string {
	return r.sub.What()
}''', '''func (r *monitorReader) What() string {
	return r.info
}''')], '''
l := &tok.Log{}
a := tok.NewScanner("a").Use(tok.Not(tok.Lit("a")))
b := tok.NewScanner("a").Use(tok.Not(tok.Monitor(tok.Lit("a"), l, "rule")))
if a.Error() != b.Error() { bad("%v / %v", a, b) }
''', "a monitored reader below a reader that reports what it does not expect", "errors and descriptions change with a monitor")

bug("c18-dedup", "C18", [("monitor.go", '''	entry := r.log.Enter(r.info, s.pos)
	err := r.sub.Read(s)
	r.log.Exit(entry, s.pos, err)
	return err''', '''	n := len(r.log.Entries)
	entry, at := r.log.Enter(r.info, s.pos), s.Mark()
	err := r.sub.Read(s)
	r.log.Exit(entry, s.pos, err)
	if at >= 0 && n > 0 && n == len(r.log.Entries)-1 && r.log.Entries[n] == r.log.Entries[n-1] {
		r.log.Entries = r.log.Entries[:n]
	}
	return err''')], '''
l := &tok.Log{}
a := tok.Monitor(tok.Lit("a"), l, "a")
tok.NewScanner("ab").Use(tok.Any(tok.Seq(a, "x"), tok.Seq(a, "b")))
if len(l.Entries) != 2 { bad("%v", l.Entries) }
''', "the same rule read twice in a row at the same position with the same result", "a read is missing in the log")

bug("c19-covers-end", "C19", [("token.go", '''	return t.from <= sub.from && t.to >= sub.to
}''', '''	empty := sub.from == sub.to && t.Len() > 0
	return t.from <= sub.from && t.to >= sub.to && !(empty && sub.from == t.to)
}''')], '''
a, b := tok.MakeToken(1, 3), tok.MakeToken(3, 3)
if !a.Covers(b) || a.Merge(b).Covers(b) != a.Covers(a.Merge(b)) { bad("%v %v", a, b) }
''', "an empty token at the end of another", "Covers denies that a token covers an empty one at its end")

bug("c21-order-from", "C21", [("segment.go", '''			if a.Token != b.Token {
				return lessSegment(a, b)
			}''', '''			if a.from != b.from {
				return lessSegment(a, b)
			}''')], '''
b, e := tok.NewScanner("abc"), &tok.Basket{}
b.Use(tok.Pick(tok.Pick(tok.Lit("ab"), e, "in"), e, "out"))
ab := e.Picked()[0]
e = &tok.Basket{}
b.ToStart()
b.Use(tok.Pick(tok.Lit("abc"), e, "out"))
l := []tok.Segment{ab, e.Picked()[0]}
tok.SortSegmentsByOrder(l, []string{"in", "out"})
if l[0].Info != "out" { bad("%v", l) }
''', "two segments with the same start and different ends, the shorter earlier in the order", "a covered segment is sorted before the covering one")

bug("c22-merge", "C22", [("segment.go", '''		left, rest = rest.Split(seg)
		if left.Len() > 0 {
			res = append(res, left)
		}
		res = append(res, seg)''', '''		if left, rest = rest.Split(seg); left.Len() > 0 {
			res = append(res, left)
		} else if n := len(res); n > 0 && res[n-1].Known() && res[n-1].Info == seg.Info {
			res[n-1].Token = res[n-1].Merge(seg.Token)
			continue
		}
		res = append(res, seg)''')], '''
s := tok.NewScanner("abcd")
b := &tok.Basket{}
s.Use(tok.Times(2, tok.Pick(tok.Times(2, tok.Match("any", func(rune) bool { return true })), b, "p")))
l, err := s.Segmentate(b.Picked())
if err != nil || len(l) != 2 { bad("%v %v", l, err) }
''', "two neighbouring segments with the same info", "Segmentate joins given segments")

bug("c23-name-tail", "C23", [("grammar.go", '''	return s.ErrorIfFalse(s.AtEnd(), RuleName().What())''', '''	return s.ErrorIfFalse(s.AtEnd() || s.Tail() == "\\n", RuleName().What())'''), ("grammar.go", '''	if e := s.Use(RuleName()); e != nil {
		return e
	}''', '''	err := s.Use(RuleName())
	if err != nil {
		return err
	}''')], '''
if tok.CheckRuleName("rule\\n") == nil { bad("accepted") }
''', "a rule name with a newline at the end", "CheckRuleName accepts a name that is no rule name")

bug("c25-zero", "C25", [("grammar/json.go", '''Any(Rune('0'), Seq(&g.OneNine, Opt(&g.Digits)))''', '''Any(Seq('0', Opt(Seq(At(Named("bits", Times(2, AnyRune("01")))), &g.Digits))), Seq(&g.OneNine, Opt(&g.Digits)))''')], '''
s := tok.NewScanner("[0011]")
if err := s.Use(grammar.JSON()); err == nil { bad("accepted") }
''', "a number with leading zero followed by two digits 0 or 1", "the JSON grammar accepts numbers with leading zeros")

bug("c27-goto", "C27", [("grammar/lua.go", '''"repeat", "return", "then", "true", "until", "while",
	), wordEnd)''', '''"repeat", "return", "then", "true", "until", "while",
	), Any(AtEnd(), At(WS()), At(AnyRune("()[]{},;=.:<>+-*/%^&|~#\\"'"))))'''), ("grammar/lua.go", '''	g.TableConstructor.Reader = skipSeq('{', Opt(&g.FieldList), '}')''', '''	g.TableConstructor.Reader = skipSeq("{", Opt(&g.FieldList), "}")''')], '''
s := tok.NewScanner("while\\v = 1")
_ = s
if err := tok.NewScanner("end\\x00").Use(&grammar.Lua().Name); err == nil { bad("accepted") }
''', "a keyword followed by a byte that is part of no token", "keywords are read as names")

bug("c28-cache-set", "C28", [("reader.go", """	r := &betweenAnyReader{}
	for i := 0; i < len(minMax); i += 2 {""", """	key := string(minMax)
	r, ok := known[key]
	if ok {
		r.singles = ""
		return r
	}
	r = &betweenAnyReader{}
	if len(minMax) == 2 {
		known[key] = r
	}
	for i := 0; i < len(minMax); i += 2 {"""), ("reader.go", """	bar.singles = singles
	return bar""", """	bar.singles = singles
	if len(bar.min) == 1 && singles != "" {
		known[string([]rune{bar.min[0], bar.max[0]})] = bar
	}
	return bar"""), ("reader.go", """type betweenAnyReader struct {""", """// readers for the ranges that were already interpreted
var known = map[string]*betweenAnyReader{}

type betweenAnyReader struct {""")], '''
a := tok.Set("a-z", "_")
tok.BuildBetweenAny('a', 'z')
if err := tok.NewScanner("_").Use(a); err != nil { bad("%v", err) }
''', "a BuildBetweenAny with the one range of an existing Set", "readers share state: a new reader changes an old one")

bug("c29-scanstring", "C29", [("scanner.go", '''	if ok {
		ok = s.Move(len(sub))
	}
	return sub, ok''', '''	if ok {
		s.pos += len(sub)
	}
	return sub, ok''')], '''
s := tok.NewScanner("abc")
last := tok.Marker(-1)
s.Tracker = follow(func(m tok.Marker) { last = m })
s.ScanString(2)
if last != 2 { bad("tracker at %d", last) }
''', "ScanString with a tracker", "the tracker misses the move of ScanString")
for b in BUGS:
    if b["id"] == "c29-scanstring":
        b["demo"] += "\ntype follow func(tok.Marker)\n\nfunc (f follow) Update(m tok.Marker) { f(m) }\n"

bug("c30-multibyte-tab", "C30", [("scanner.go", '''	n := (len(last) - tabs) + tabs*tab''', '''	n := (len(last) - tabs) + tabs*(tab%8)''')], '''
s := tok.NewScanner("\\tx")
s.Move(1)
if l, c := s.LineCol(8); l != 1 || c != 9 { bad("%d %d", l, c) }
''', "a tab width of eight or more", "LineCol counts wide tabs wrong")

bug("c31-capture-back", "C31", [("token.go", '''	t, ok := s.Tokenize(f)
	if ok {
		return s.Get(t), true
	}
	return "", false''', '''	m := s.Mark()
	if s.Scope(f) {
		return s.Tail()[:0] + s.full[min(m, s.Mark()):max(m, s.Mark()-1, 0)], true
	}
	return "", false'''), ("token.go", '''import "fmt"
''', '''import "fmt"

func min(a, b Marker) Marker {
	if a < b {
		return a
	}
	return b
}

func max(a, b, c Marker) Marker {
	for _, v := range []Marker{b, c} {
		if v > a {
			a = v + 1
		}
	}
	return a
}
''')], '''
s := tok.NewScanner("ab")
str, ok := s.Capture(func() bool { return s.Move(1) })
if !ok || str != "a" { bad("%q", str) }
''', "a capture of one byte", "Capture loses a character")

# --- round 3
bug('c08-wrap', 'C08', [('read.go', '\t\tif u64 > (max-uint64(v))/uint64(base) {\n\t\t\tbreak\n\t\t}\n\t\ttmp = (u64 * uint64(base)) + uint64(v)\n', '\t\ttmp = (u64 * uint64(base)) + uint64(v)\n\t\tif tmp < u64 || tmp > max {\n\t\t\tbreak\n\t\t}\n')], '\ns := tok.NewScanner("30000000000000000000")\nv, err := s.ReadUint(10, 64)\nif err != nil || v != 3000000000000000000 || s.Mark() != 19 { bad("%d %v %d", v, err, s.Mark()) }\n', 'a number of 64 bits that wraps to something larger', 'ReadUint returns a wrapped value')

bug('c12-body-limit', 'C12', [('reader.go', '\t\t\tsub := &Scanner{full: s.full[:t], pos: int(m), Tracker: s.Tracker}\n\t\t\te = sub.Use(r.body)\n\t\t\tif e != nil || !sub.AtEnd() {\n\t\t\t\tbreak\n\t\t\t}\n\t\t\treturn nil', '\t\t\ts.ToMarker(m)\n\t\t\te = s.Use(r.body)\n\t\t\tif e != nil || s.Mark() != t {\n\t\t\t\tbreak\n\t\t\t}\n\t\t\treturn nil')], '\ns := tok.NewScanner("aaab")\nr := tok.Body(tok.Zom(tok.AnyRune("ab")), tok.Lit("b"))\nif err := s.Use(r); err != nil || s.Mark() != 3 { bad("%v %d", err, s.Mark()) }\n', 'a body that also matches the tail', 'Body lets its body read beyond the tail')

bug('c14-times', 'C14', [('reader.go', '\t\t\ts.ToMarker(m)\n\t\t\treturn e\n\t\t}\n\t}\n\treturn nil\n}\n\nfunc (r *timesReader)', '\t\t\ts.ToMarker(m)\n\t\t\tif i > 8 {\n\t\t\t\treturn s.ErrorFor(r.What())\n\t\t\t}\n\t\t\treturn e\n\t\t}\n\t}\n\treturn nil\n}\n\nfunc (r *timesReader)')], '\ns := tok.NewScanner("aaaaaaaaab")\nerr := s.Use(tok.Times(12, tok.Rune(\'a\')))\nif re, ok := err.(tok.ReadError); !ok || re.Marker != 9 { bad("%v", err) }\n', 'a Times that fails after more than eight reads', 'the error points at the start')

bug('c15-keep-longer', 'C15', [('reader.go', '\t\tr.end.reader.str = s.Get(t)\n', '\t\tif str := s.Get(t); !strings.HasPrefix(r.end.reader.str, str) || r.end.reader.str == str || str == "" {\n\t\t\tr.end.reader.str = str\n\t\t}\n')], '\nb, e := tok.Janus("j", tok.Many(tok.Between(\'a\', \'z\')))\nr := tok.Seq(b, tok.Rune(\'-\'), e)\ntok.NewScanner("abc-abc").Use(r)\ns := tok.NewScanner("ab-ab")\nif err := s.Use(r); err != nil { bad("%v", err) }\n', 'a second text whose word is the start of the first word', 'the end keeps the older, longer word')

bug('c16-fast', 'C16', [('tracker.go', '\t\tif seg.to <= m {', '\t\tif seg.to <= m || (i > 16 && seg.from < m) {')], '\ntext := strings.Repeat("abc", 30)\ns := tok.NewScanner(text)\nb := s.NewBasket()\ns.Use(tok.Many(tok.Pick(tok.Lit("abc"), b, "p")))\ns.ToMarker(70)\nif n := len(b.Picked()); n != 23 { bad("%d picks", n) }\n', 'more than sixteen picks and a move back into one of them', 'a pick beyond the scanner stays')

bug('c18-preview', 'C18', [('intl.go', '\t\tif count == n {\n\t\t\treturn str[:i], true\n\t\t}\n\t\tcount++', '\t\tif count == n {\n\t\t\treturn str[:i], true\n\t\t}\n\t\tif str[i] != 0xcc {\n\t\t\tcount++\n\t\t}')], '\nl := &tok.Log{}\ntext := "e\\u0301a" + "bc"\ns := tok.NewScanner(text)\ns.Use(tok.Monitor(tok.Lit("e"), l, "m"))\nold := os.Stdout\nr, w, _ := os.Pipe()\nos.Stdout = w\nl.PrintWithPreview(text, 2)\nos.Stdout = old\nbuf := make([]byte, 200)\nn, _ := r.Read(buf)\nif out := string(buf[:n]); out != "1.@ 0 m > \\"e\\u0301\\"\\n" { bad("%q", out) }\n', 'a preview over a combining rune', 'the preview is too long')

bug('c21-cmp', 'C21', [('segment.go', 'return a.to > b.to', 'return a.Len() > b.Len() && a.Len() != b.Len()+64')], '\na := tok.Segment{Info: "a", Token: tok.MakeToken(0, 66)}\nb := tok.Segment{Info: "b", Token: tok.MakeToken(0, 2)}\nl := []tok.Segment{b, a}\ntok.SortSegments(l)\nif l[0].Info != "a" { bad("%v", l) }\n', 'two segments from one start whose lengths differ by 64', 'the covered segment stays first')

bug('c23-name', 'C23', [('grammar.go', 'AnyRune("+-._")', 'AnyRune("+-._\\u00b7")')], '\nif tok.CheckRuleName("a\\u00b7b") == nil { bad("valid") }\n', 'a name with a middle dot', 'an invalid name is accepted')

bug('c24-quote', 'C24', [('reader.go', '\treturn "~" + strconv.QuoteToGraphic(r.val)', '\treturn "~" + strconv.Quote(r.val)')], '\nif w := tok.Fold("\\u00a0").What(); w != "~\\"\\u00a0\\"" { bad("%s", w) }\n', 'a graphic rune that is not printable', 'the description of Fold is not that of Lit')

bug('c28-times', 'C28', [('reader.go', 'type timesReader struct {\n\tn   int\n\tsub Reader\n}', 'type timesReader struct {\n\tn    int\n\tsub  Reader\n\tdone int\n}'), ('reader.go', '\tfor i := 0; i < r.n; i++ {\n\t\tif e := r.sub.Read(s); e != nil {\n\t\t\ts.ToMarker(m)\n\t\t\treturn e\n\t\t}\n\t}\n\treturn nil', '\tfor r.done = 0; r.done < r.n; r.done++ {\n\t\tif e := r.sub.Read(s); e != nil {\n\t\t\ts.ToMarker(m)\n\t\t\treturn e\n\t\t}\n\t}\n\treturn nil'), ('reader.go', '\treturn &timesReader{n, r}', '\treturn &timesReader{n: n, sub: r}')], '\nr := &tok.Rule{Name: "r"}\nr.Reader = tok.Any(tok.Seq("(", tok.Times(2, r), ")"), "x")\ns := tok.NewScanner("((xx)x)")\nif err := s.Use(r); err != nil || !s.AtEnd() { bad("%v", err) }\n', 'a Times reader that is used while it reads', 'the inner use changes the count of the outer')

bug('c28-pastmemo', 'C28', [('reader.go', 'type pastReader struct {\n\tsub Reader\n}', 'type pastReader struct {\n\tsub  Reader\n\tnone string\n}'), ('reader.go', '\tm := s.Mark()\n\tfor ok := true; ok; ok = s.MoveRunes(1) {\n\t\tif e := r.sub.Read(s); e == nil {\n\t\t\treturn nil\n\t\t}\n\t}\n\ts.ToMarker(m)\n', '\tm := s.Mark()\n\tif r.none != "" && r.none == s.Tail() {\n\t\treturn s.ErrorFor(r.What())\n\t}\n\tfor ok := true; ok; ok = s.MoveRunes(1) {\n\t\tif e := r.sub.Read(s); e == nil {\n\t\t\treturn nil\n\t\t}\n\t}\n\ts.ToMarker(m)\n\tr.none = s.Tail()\n'), ('reader.go', '\treturn &pastReader{r}', '\treturn &pastReader{sub: r}')], '\nb, e := tok.Janus("j", tok.AnyRune("ab"))\nr := tok.Seq(b, tok.Past(e))\ntok.NewScanner("b-a-").Use(r)\ns := tok.NewScanner("a-a-")\nif err := s.Use(r); err != nil { bad("%v", err) }\n', 'the same rest after another word', 'a failed search is remembered although the end has changed')

bug('c30-cr', 'C30', [('scanner.go', 'strings.ReplaceAll(s.Head(), "\\r\\n", "\\n")', 'strings.ReplaceAll(strings.TrimSuffix(s.Head(), "\\r"), "\\r\\n", "\\n")')], '\ns := tok.NewScanner("ab\\rc")\ns.Move(3)\nif l, c := s.LineCol(1); l != 1 || c != 4 { bad("%d %d", l, c) }\n', 'a cursor after a carriage return', 'LineCol forgets a column')


# --- round 4
bug('c11-any-limit', 'C11', [('reader.go', '''	errs := []error{}
	for _, sub := range r.readers {
''', '''	errs := []error{}
	for i, sub := range r.readers {
		if i > 255 {
			break
		}
''')], '''
l := []interface{}{}
for i := 0; i < 300; i++ { l = append(l, rune(0x100+i)) }
s := tok.NewScanner(string(rune(0x100 + 299)))
if err := s.Use(tok.Any(l...)); err != nil { bad("%v", err) }
''', 'a choice with more than 256 alternatives', 'the last alternatives are not tried')
