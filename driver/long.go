package main

import (
	"strings"
	"unicode/utf8"
)

// Long texts, long arguments and far positions: what a limit of a buffer, a
// table or an index would cut off.

func longSizes(c *ctx) []int {
	if c.thorough {
		return []int{33, 70, 129, 257, 300, 520, 1030, 2100, 4200, 9000}
	}
	return []int{70, 300, 1100, 4200}
}

func cutRunes(s string, n int) string {
	if n > len(s) {
		n = len(s)
	}
	for n > 0 && n < len(s) && !utf8.RuneStart(s[n]) {
		n--
	}
	return s[:n]
}

func emitAt(c *ctx, text string, ops []op, at ...int) {
	row := &callRow{Kind: "calls", T: bytesOf(text), O: ops}
	for _, p := range at {
		if 0 <= p && p <= len(text) {
			for i := range ops {
				row.C = append(row.C, []int{p, i + 1})
			}
		}
	}
	c.emit(row)
}

func bodyOp(b op, n int) op { return op{Op: "While", B: &b, N: &n} }

// foldPairs compares runes that are equal in some case, but not under folding.
func foldPairs(c *ctx, name string) {
	if name == "" {
		return
	}
	all := allTexts([]string{"i", "\u0131", "I", "\u0130", "s", "\u017f", "\u00df", "\u03c2", "\u212a"}, 2)
	ops := []op{}
	for _, s := range all {
		if s != "" {
			ops = append(ops, opS(name, s))
		}
	}
	for _, s := range all {
		at := 0
		if strings.HasPrefix(name, "Rev") {
			at = len(s)
		}
		emitAt(c, s, ops, at)
	}
}

// longCalls makes the calls of one property.
func longCalls(prop string) func(*ctx) {
	return func(c *ctx) {
		rep := strings.Repeat
		foldPairs(c, map[string]string{"C02": "IfFold", "C03": "ToFold", "C05": "RevIfFold", "C06": "RevToFold"}[prop])
		for _, n := range longSizes(c) {
			few := n // length of lists
			if few > 300 {
				few = 300
			}
			switch prop {
			case "C02", "C05":
				pre := map[string]string{"C02": "", "C05": "Rev"}[prop]
				s := cutRunes(rep("abäkZ.", n/6), n)
				up, last := strings.ToUpper(s), s[:len(s)-1]
				off := s[:n/2] + "#" + s[n/2+1:]
				list, runes := []string{}, []rune{}
				for i := 0; i < few; i++ {
					list = append(list, "ab"+string(rune('A'+i))+"x")
					runes = append(runes, rune(0x3000+i))
				}
				hit := append(append([]string{}, list...), "abä", "kZ.")
				ops := []op{opS(pre+"If", s), opS(pre+"If", last), opS(pre+"If", s+"a"), opS(pre+"If", "."+s), opS(pre+"If", off),
					opS(pre+"IfFold", up), opS(pre+"IfFold", validOnly(up[:len(up)-1])), opS(pre+"IfFold", up+"A"), opS(pre+"IfFold", "."+up),
					opSS(pre+"IfAny", list...), opSS(pre+"IfAny", hit...), opSS(pre+"IfAny", off, s+"#", "#"+s, s),
					opSet(pre+"IfR", "any", runes...), opSet(pre+"IfR", "any", append(append([]rune{}, runes...), 'a', '.')...)}
				at := []int{0, len(s)}
				if pre != "" {
					at = []int{2 * len(s), len(s)}
				}
				emitAt(c, s+s, ops, at...)
				t := s + string(runes[few-1]) + s
				emitAt(c, t, ops[12:], len(s), len(s)+3)
			case "C03", "C06":
				pre := map[string]string{"C03": "", "C06": "Rev"}[prop]
				for i, f := range []string{"a", "ä", "ab", "ak"} {
					key := []string{"b", "ö", "abb", "ky"}[i]
					r := rune([]rune(key)[0])
					if i > 1 {
						r = '#'
					}
					fill := rep(f, n/len(f))
					t := fill + key
					at := []int{0, len(f), n / len(f) / 2 * len(f)}
					if pre != "" {
						t = key + fill
						if i == 2 {
							t = "bab" + rep("ba", n/2)
							key = "bab"
						}
						at = []int{len(t), len(t) - len(f), len(t) - n/len(f)/2*len(f)}
					}
					ops := []op{opS(pre+"To", key), opS(pre+"To", key+"x"), opS(pre+"ToFold", strings.ToUpper(key)), opS(pre+"ToFold", key+"x"),
						opR(pre+"ToR", r), opSet(pre+"ToR", "any", r, '!'), opBetween(pre+"ToR", r, r), opSet(pre+"ToR", "match", r), opSet(pre+"ToR", "match", '!'),
						opSet(pre+"ToR", "nmatch", []rune(f)...)}
					if i > 1 {
						ops = ops[:4]
					} else if prop == "C06" {
						r := []rune(f)[0]
						ops = append(ops, opR("RevWhileR", r), opSet("RevWhileR", "any", r, '!'), opBetween("RevWhileR", r, r), opSet("RevWhileR", "match", r), opSet("RevWhileR", "nmatch", []rune(key)...))
					}
					emitAt(c, t, ops, at...)
				}
				if prop == "C03" { // a long string is looked for
					s := cutRunes(rep("abäkZ.", n/6), n)
					off := s[:len(s)-1] + "#"
					ops := []op{opS("To", s), opS("To", off), opS("To", s+"x")}
					if n <= 300 || c.thorough && n <= 1100 {
						ops = append(ops, opS("ToFold", strings.ToUpper(s)))
					}
					emitAt(c, off+s, ops, 0, 1, len(s))
				} else if n <= 300 || c.thorough && n <= 1100 {
					s := cutRunes(rep("abäkZ.", n/6), n)
					off := "#" + s[1:]
					emitAt(c, s+off, []op{opS("RevTo", s), opS("RevToFold", strings.ToUpper(s)), opS("RevTo", off), opS("RevTo", "x"+s)}, 2*len(s), 2*len(s)-1)
				}
			case "C04":
				for _, f := range []string{"a", "ä", "世", "ab"} {
					rs := []rune(f)
					t := rep(f, n/len(f)) + "#"
					at := []int{0, len(f), n / len(f) / 2 * len(f), len(t) - 1}
					ops := []op{opR("WhileR", rs[0]), opBetween("WhileR", rs[0], rs[len(rs)-1]), opSet("WhileR", "match", rs...), opSet("WhileR", "nmatch", '#'), opSet("WhileR", "nmatch", '!'), opSet("WhileR", "any", rs[0])}
					if len(rs) > 1 {
						ops = ops[:5]
					}
					if n <= 1100 {
						ops = append(ops, bodyOp(opR("IfR", rs[0]), 10000), bodyOp(opSet("IfR", "match", rs...), 10000), bodyOp(opSet("IfR", "nmatch", '#'), n/len(f)/2))
					}
					emitAt(c, t, ops, at...)
				}
			case "C07":
				for _, f := range []string{"a", "ä", "a世", "\xff", "\U0001F600"} {
					k := utf8.RuneCountInString(f) * (n / len(f))
					t := rep(f, n/len(f))
					ops := []op{{Op: "ReadRune"}, {Op: "RevReadRune"}}
					for _, d := range []int{k - 1, k, k + 1, k / 2, 256, 1000} {
						ops = append(ops, opN("MoveRunes", d), opN("MoveRunes", -d), opN("ScanString", d))
					}
					emitAt(c, t, ops, 0, len(f), n/len(f)/2*len(f), len(t)-len(f), len(t))
				}
			case "C08":
				ops := []op{}
				for _, b := range []int{8, 10, 16} {
					for _, s := range []int{8, 64} {
						ops = append(ops, opNum("ReadInt", b, s), opNum("ReadUint", b, s))
					}
				}
				for i, d := range []string{rep("0", n) + "12", rep("0", n) + "127x", rep("0", n), rep("0", n) + "128", rep("0", n) + "7777777777777777777", rep("0", n) + "99999999999999999999", rep("1", n), "1" + rep("0", n)} {
					sg := []string{"", "-", "+"}[(i+n)%3]
					emitAt(c, sg+d, ops, 0, len(sg), n/2)
					emitAt(c, rep("x", n)+sg+"127 ", ops, n, n-1)
				}
			case "C09":
				for _, w := range []string{"true", "FALSE", "False"} {
					t := rep("ä", n/2) + w + rep("e", n)
					ops := []op{}
					for _, f := range []string{"", "*", "l", "U", "Cc"} {
						ops = append(ops, opF("ReadBool", f), opF("BoolReader", f))
					}
					emitAt(c, t, ops, n/2*2, n/2*2-2, n/2*2+1)
				}
			case "C30":
				for _, f := range []string{"a", "ä", "\t", "\n", "a\r\n", "\tb\n", "ab\u2028"} {
					t := rep(f, n/len(f))
					ops := []op{}
					for _, k := range []int{1, 4, 300} {
						ops = append(ops, opN("LineCol", k))
					}
					emitAt(c, t, ops, 0, n/len(f)/2*len(f), len(t)-len(f), len(t))
					emitAt(c, t+"\n\ta"+rep("a", few), ops, len(t), len(t)+1, len(t)+2, len(t)+few)
				}
			}
		}
	}
}

// longSess makes histories with far moves.
func longSess(track bool) func(*ctx) {
	return func(c *ctx) {
		for _, n := range longSizes(c) {
			for k, f := range []string{"a", "ä", "ab", "a\nb", "\xff世"} {
				m := n / len(f) * len(f)
				t := strings.Repeat(f, n/len(f))
				r := &sessRow{Kind: "sess", T: bytesOf(t), Rev: k % 2, Track: b2i(track || k%2 == 0)}
				rs := []rune(f)
				r.O = []op{opN("Move", m), opN("Move", -m), opN("Move", m/2), opN("Move", -m/3), opN("Move", m-1), opN("ToMarker", m), opN("ToMarker", m-len(f)), opN("ToMarker", m+1), opN("ToMarker", 0), opN("Move", 1-m),
					opN("ToEnd", 0), opN("ToStart", 0), opN("MoveRunes", m/4), opN("MoveRunes", -m/4), opSet("WhileR", "match", rs...), opSet("RevWhileR", "match", rs...),
					opS("To", f), opS("If", f), opS("If", strings.Repeat(f, n/len(f)/2)), opS("RevIf", strings.Repeat(f, n/len(f)/2)), opS("To", "#"), opSet("ToR", "match", '#'), opN("ScanString", m/3), {Op: "ReadRune"}, {Op: "RevReadRune"}}
				for i := 0; i < 80; i++ {
					r.S = append(r.S, sessSt{O: 1 + c.rnd.Intn(len(r.O))})
				}
				c.emit(r)
			}
		}
	}
}
