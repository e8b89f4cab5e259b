------------------------------ MODULE JsonText ------------------------------
(* JSON by RFC 8259, on bytes.  Every reader of a part returns the position  *)
(* behind it (-1 if the part is not there) and the set of the ranges of all  *)
(* parts, <<name, from, to>>; empty parts are not listed.                    *)
EXTENDS ByteWalk

None == [p |-> -1, s |-> {}]
At(p) == [p |-> p, s |-> {}]
IsAt(t, p, b) == p < Len(t) /\ t[p+1] = b
Part(name, a, b) == IF a < b THEN {<<name, a, b>>} ELSE {}

Digits19 == 49..57
Digits09 == 48..57
HexDigits == (48..57) \cup (65..70) \cup (97..102)
Spaces == {32, 9, 10, 13}

Word(t, p, w) ==
  IF p + Len(w) <= Len(t) /\ SubSeq(t, p+1, p+Len(w)) = w THEN p + Len(w) ELSE -1
True == <<116, 114, 117, 101>>
False == <<102, 97, 108, 115, 101>>
Null == <<110, 117, 108, 108>>

(* number = [ minus ] int [ frac ] [ exp ]                                   *)
Number(t, p) ==
  LET q == IF IsAt(t, p, 45) THEN p + 1 ELSE p
      z == IsAt(t, q, 48)
      i == IF z THEN q + 1 ELSE IF InAt(t, q, Digits19) THEN Span(t, q, Digits09) ELSE -1
      f == IF IsAt(t, i, 46) THEN Span(t, i+1, Digits09) ELSE i
      fok == f = i \/ f > i + 1
      s == IF InAt(t, f, {101, 69}) /\ InAt(t, f+1, {43, 45}) THEN f + 2 ELSE f + 1
      e == IF InAt(t, f, {101, 69}) THEN Span(t, s, Digits09) ELSE f
      eok == e = f \/ e > s
  IN IF i = -1 \/ ~fok \/ ~eok THEN None
     ELSE [p |-> e,
           s |-> Part("integer", p, i)
                 \cup (IF z THEN {} ELSE Part("onenine", q, q+1) \cup Part("digits", q+1, i))
                 \cup Part("fraction", i, f) \cup (IF f > i THEN Part("digits", i+1, f) ELSE {})
                 \cup Part("exponent", f, e)
                 \cup (IF e > f THEN Part("sign", f+1, s) \cup Part("digits", s, e) ELSE {})
                 \cup Part("number", p, e)]

(* The characters of a string up to the closing quote.                       *)
CharLen(t, p) ==          \* bytes of the UTF-8 character at p, 1 if it is invalid
  LET b == t[p+1]
      cont(k) == InAt(t, p+k, 128..191)
  IN IF b \in 194..223 /\ cont(1) THEN 2
     ELSE IF /\ b \in 224..239 /\ cont(1) /\ cont(2)
             /\ (b = 224 => t[p+2] >= 160) /\ (b = 237 => t[p+2] <= 159) THEN 3
     ELSE IF /\ b \in 240..244 /\ cont(1) /\ cont(2) /\ cont(3)
             /\ (b = 240 => t[p+2] >= 144) /\ (b = 244 => t[p+2] <= 143) THEN 4
     ELSE 1
(* Up to k characters: go on at p, the quote is at p, or something is wrong. *)
CharAt(t, p) ==
  LET go(n, s) == [go |-> TRUE, p |-> p+n, s |-> s \cup Part("character", p, p+n)]
      bad == [go |-> FALSE, p |-> -1, s |-> {}]
  IN IF p >= Len(t) THEN bad
     ELSE IF t[p+1] = 34 THEN [go |-> FALSE, p |-> p, s |-> {}]
     ELSE IF t[p+1] < 32 THEN bad
     ELSE IF t[p+1] = 92
          THEN IF InAt(t, p+1, {34, 92, 47, 98, 102, 110, 114, 116})
               THEN go(2, Part("escape", p+1, p+2))
               ELSE IF IsAt(t, p+1, 117) /\ \A k \in 2..5 : InAt(t, p+k, HexDigits)
               THEN go(6, Part("escape", p+1, p+6) \cup {<<"hex", p+k, p+k+1>> : k \in 2..5})
               ELSE bad
     ELSE go(CharLen(t, p), {})
RECURSIVE Chars(_, _, _)
Chars(t, p, k) ==
  IF k <= 1 THEN CharAt(t, p)
  ELSE LET a == Chars(t, p, Half(k)) IN
       IF ~a.go THEN a
       ELSE LET b == Chars(t, a.p, k - Half(k)) IN [b EXCEPT !.s = @ \cup a.s]
Str(t, p, name) ==
  IF ~IsAt(t, p, 34) THEN None
  ELSE LET c == Chars(t, p+1, Len(t) - p)
       IN IF c.p = -1 THEN None
          ELSE [p |-> c.p + 1, s |-> c.s \cup Part("characters", p+1, c.p) \cup Part(name, p, c.p+1)]

RECURSIVE Value(_, _)
(* ws value ws                                                               *)
Element(t, p) ==
  LET q == Span(t, p, Spaces)
      v == Value(t, q)
      e == Span(t, v.p, Spaces)
  IN IF v.p = -1 THEN None
     ELSE [p |-> e, s |-> v.s \cup Part("ws", p, q) \cup Part("ws", v.p, e) \cup Part("element", p, e)]
(* ws string ws : element                                                    *)
Member(t, p) ==
  LET q == Span(t, p, Spaces)
      k == Str(t, q, "key")
      c == Span(t, k.p, Spaces)
      v == Element(t, c + 1)
  IN IF k.p = -1 THEN None
     ELSE IF ~IsAt(t, c, 58) THEN None
     ELSE IF v.p = -1 THEN None
     ELSE [p |-> v.p, s |-> k.s \cup v.s \cup Part("ws", p, q) \cup Part("ws", k.p, c) \cup Part("member", p, v.p)]
RECURSIVE Items(_, _, _, _)
Items(t, p, kind, k) ==   \* up to k items separated by commas, from p; go: a comma is behind them
  IF k <= 1 THEN
    LET x == IF kind = "element" THEN Element(t, p) ELSE Member(t, p)
    IN IF x.p # -1 /\ IsAt(t, x.p, 44) THEN [go |-> TRUE, p |-> x.p + 1, s |-> x.s] ELSE [go |-> FALSE, p |-> x.p, s |-> x.s]
  ELSE LET a == Items(t, p, kind, Half(k)) IN
       IF ~a.go THEN a
       ELSE LET b == Items(t, a.p, kind, k - Half(k)) IN [b EXCEPT !.s = @ \cup a.s]
List(t, p, close, kind, kinds, name) ==
  LET w == Span(t, p+1, Spaces)
      x == Items(t, p+1, kind, Len(t) - p)
  IN IF IsAt(t, w, close) THEN [p |-> w+1, s |-> Part("ws", p+1, w) \cup Part(name, p, w+1)]
     ELSE IF x.p = -1 THEN None
     ELSE IF ~IsAt(t, x.p, close) THEN None
     ELSE [p |-> x.p+1, s |-> x.s \cup Part(kinds, p+1, x.p) \cup Part(name, p, x.p+1)]
Simple(t, p, w, name) ==
  LET q == Word(t, p, w) IN IF q = -1 THEN None ELSE [p |-> q, s |-> Part(name, p, q)]
Value(t, p) ==
  LET v == IF p >= Len(t) THEN None
           ELSE CASE t[p+1] = 123 -> List(t, p, 125, "member", "members", "object")
                  [] t[p+1] = 91  -> List(t, p, 93, "element", "elements", "array")
                  [] t[p+1] = 34  -> Str(t, p, "string")
                  [] t[p+1] = 116 -> Simple(t, p, True, "bool")
                  [] t[p+1] = 102 -> Simple(t, p, False, "bool")
                  [] t[p+1] = 110 -> Simple(t, p, Null, "null")
                  [] OTHER -> Number(t, p)
  IN IF v.p = -1 THEN None ELSE [p |-> v.p, s |-> v.s \cup Part("value", p, v.p)]

Parse(t)  == Element(t, 0)
IsJson(t) == Parse(t).p = Len(t)
=============================================================================
