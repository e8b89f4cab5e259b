----------------------------- MODULE MCScanner ------------------------------
(* The scanner as a state machine: a text and a cursor; every call of a      *)
(* finite set of calls is an action.  The laws below say what the properties *)
(* promise without using the definitions in ScannerOps of the calls they are *)
(* about: TLC checks that the definitions, which the recorded behaviour of   *)
(* the code is compared with, obey them for all small texts (every byte      *)
(* position is reached through Move).                                        *)
EXTENDS ScannerOps, TLC, Json

CONSTANTS MaxCells, CellSet

VARIABLES text, pos

Cell == [a |-> <<97>>, A |-> <<65>>, b |-> <<98>>, ae |-> <<195, 164>>,
         shi |-> <<228, 184, 150>>, ff |-> <<255>>, fffd |-> <<239, 191, 189>>,
         nl |-> <<10>>, cr |-> <<13>>, tab |-> <<9>>, cont |-> <<132>>,
         kelvin |-> <<226, 132, 170>>, k |-> <<107>>, smile |-> <<240, 159, 152, 128>>,
         d0 |-> <<48>>, d1 |-> <<49>>, d2 |-> <<50>>, d7 |-> <<55>>, d8 |-> <<56>>,
         plus |-> <<43>>, minus |-> <<45>>, hf |-> <<102>>,
         tr |-> <<116, 114, 117, 101>>, fl |-> <<70, 97, 108, 115, 101>>, t |-> <<116>>]

RECURSIVE Texts(_)
Texts(n) == IF n = 0 THEN {<<>>}
            ELSE Texts(n-1) \cup {x \o Cell[c] : x \in Texts(n-1), c \in CellSet}

Strings == {Cell[c] : c \in CellSet} \cup {<<>>, <<97, 98>>, <<98, 97>>, <<97, 97>>, <<107>>}
Runes   == {97, 65, 98, 228, 19990, RuneError, 107, 8490}
Tests   == {[m |-> "rune", r |-> x] : x \in Runes}
      \cup {[m |-> "any", rs |-> <<97, 228>>], [m |-> "any", rs |-> <<>>],
            [m |-> "any", rs |-> <<RuneError, 98>>],
            [m |-> "between", lo |-> 97, hi |-> 228], [m |-> "between", lo |-> 98, hi |-> 97],
            [m |-> "between", lo |-> 0, hi |-> MaxRune],
            [m |-> "match", rs |-> <<97, 98, 19990>>], [m |-> "nmatch", rs |-> <<97>>]}
With(name, x) == [op |-> name] @@ x
Numbers01 == -2..4

Calls ==  {[op |-> n, s |-> x] : n \in {"If", "To", "IfFold", "ToFold", "RevIf", "RevIfFold"}, x \in Strings}
     \cup {[op |-> "RevTo", s |-> x] : x \in {y \in Strings : y # <<>> /\ ValidUtf8(y)}}
     \cup {[op |-> "RevToFold", s |-> x] : x \in {y \in Strings : y # <<>> /\ ValidUtf8(y) /\ y # Encode(RuneError)}}
     \cup {With(n, x) : n \in {"IfR", "ToR", "WhileR", "RevIfR", "RevToR", "RevWhileR"}, x \in Tests}
     \cup {[op |-> n, n |-> x] : n \in {"Move", "MoveRunes", "ToMarker", "ScanString"}, x \in Numbers01}
     \cup {[op |-> "ToEnd"], [op |-> "ToStart"], [op |-> "ReadRune"], [op |-> "RevReadRune"]}

(* What is replayed on the real code: all of these calls, at every position  *)
(* of every text.                                                            *)
AllCalls == Calls
     \cup {[op |-> n, ss |-> x] : n \in {"IfAny", "RevIfAny"}, x \in {<<>>} \cup {<<a, b>> : a, b \in {<<>>, <<97>>, <<97, 98>>, <<195, 164>>, <<255>>}}}
     \cup {[op |-> "While", b |-> With("IfR", x), n |-> n] : x \in Tests, n \in {1, 2, 1000}}
     \cup {[op |-> n, base |-> b, bits |-> s] : n \in {"ReadInt", "ReadUint", "IntReader", "UintReader"}, b \in {8, 10, 16, 2}, s \in {8, 16, 32, 64, 7}}
     \cup {[op |-> n, f |-> f] : n \in {"ReadBool", "BoolReader"}, f \in {"", "*", "l", "U", "Cc", "x"}}
     \cup {[op |-> "LineCol", n |-> n] : n \in {0, 1, 4}}

Init == text \in Texts(MaxCells) /\ pos = 0
Next == /\ UNCHANGED text
        /\ \E d \in {[op |-> "Move", n |-> 1], [op |-> "Move", n |-> 2], [op |-> "ToEnd"]} :
             pos' = Apply(text, pos, d).p
(* All calls as actions; used where the graph of all histories is explored.  *)
NextAll == UNCHANGED text /\ \E o \in AllCalls : pos' = Apply(text, pos, o).p
Spec    == Init /\ [][Next]_<<text, pos>>
SpecAll == Init /\ [][NextAll]_<<text, pos>>

Emit == pos = 0 => /\ PrintT(ToJson([t |-> text]))
                   /\ text = <<>> => \A o \in AllCalls : PrintT(ToJson([o |-> o]))

N == Len(text)
Do(o) == Apply(text, pos, o)
DoAt(p, o) == Apply(text, p, o)
Sub(a, b) == SubSeq(text, a+1, b)
Unmoved(r) == ~r.ok /\ r.p = pos

(* ---- runes, told apart by their encoding rather than by decoding -------- *)
IsEncoding(s) == \E w \in {DecodeAt(s, 0)} : w[2] = Len(s) /\ Encode(w[1]) = s
ASSUME \A r \in {0, 127, 128, 2047, 2048, 55295, 57344, 65533, 65535, 65536, 1114111} :
         DecodeAt(Encode(r), 0) = <<r, Len(Encode(r))>> /\ DecodeBefore(Encode(r), Len(Encode(r))) = <<r, Len(Encode(r))>>
(* the rune that starts at p: <<code point, end>> *)
RuneAt(p) == LET E == {q \in (p+1)..(p+4) : q <= N /\ IsEncoding(Sub(p, q))}
             IN IF E = {} THEN <<RuneError, p+1>>
                ELSE LET q == CHOOSE x \in E : TRUE IN <<DecodeAt(Sub(p, q), 0)[1], q>>
RuneBefore(p) == LET E == {q \in (p-4)..(p-1) : q >= 0 /\ IsEncoding(Sub(q, p))}
                 IN IF E = {} THEN <<RuneError, p-1>>
                    ELSE LET q == CHOOSE x \in E : TRUE IN <<DecodeAt(Sub(q, p), 0)[1], q>>
RECURSIVE Bounds(_)            \* rune boundaries at or behind p
Bounds(p) == IF p >= N THEN {N} ELSE {p} \cup Bounds(RuneAt(p)[2])
RECURSIVE RevBounds(_)
RevBounds(p) == IF p <= 0 THEN {0} ELSE {p} \cup RevBounds(RuneBefore(p)[2])
Valid == ValidUtf8(text)

(* ---- C01 ---------------------------------------------------------------- *)
LawC01 == /\ 0 <= pos /\ pos <= N
          /\ \A o \in Calls : LET r == Do(o) IN 0 <= r.p /\ r.p <= N
          /\ \A n \in Numbers01 :
               /\ Do([op |-> "Move", n |-> n]) = (IF pos+n \in 0..N THEN Go(pos+n) ELSE Stay(pos))
               /\ Do([op |-> "ToMarker", n |-> n]) = (IF n \in 0..N THEN Go(n) ELSE Stay(pos))
          /\ Do([op |-> "ToEnd"]) = Go(N) /\ Do([op |-> "ToStart"]) = Go(0)

(* ---- C02 ---------------------------------------------------------------- *)
LawC02 ==
  /\ \A s \in Strings : LET r == Do([op |-> "If", s |-> s]) IN
       IF \E q \in pos..N : Sub(pos, q) = s THEN r.ok /\ Sub(pos, r.p) = s ELSE Unmoved(r)
  /\ \A s \in Strings : LET r == Do([op |-> "IfFold", s |-> s])
                            f == Do([op |-> "If", s |-> s]) IN
       /\ f.ok => r = f
       /\ r.ok => r.p - pos = Len(s)
       /\ ~r.ok => r.p = pos
       /\ r.ok <=> \E q \in pos..N : q - pos = Len(s) /\ EqualFold(Sub(pos, q), s)
  /\ \A s1, s2 \in Strings : LET r == Do([op |-> "IfAny", ss |-> <<s1, s2>>])
                                 a == Do([op |-> "If", s |-> s1])
                                 b == Do([op |-> "If", s |-> s2]) IN
       r = (IF a.ok THEN a ELSE b)
  /\ \A x \in Tests : LET r == Do(With("IfR", x)) IN
       IF pos < N /\ Accepts(x, RuneAt(pos)[1]) THEN r = Go(RuneAt(pos)[2]) ELSE Unmoved(r)

(* ---- C03 ---------------------------------------------------------------- *)
First(S) == CHOOSE x \in S : \A y \in S : x <= y
Last(S)  == CHOOSE x \in S : \A y \in S : x >= y
LawC03 ==
  /\ \A n \in {<<"To", "If">>, <<"ToFold", "IfFold">>} : \A s \in Strings :
       LET r == Do([op |-> n[1], s |-> s])
           Hits == {q \in pos..N : DoAt(q, [op |-> n[2], s |-> s]).ok}
       IN IF Hits = {} THEN Unmoved(r) ELSE r = Go(First(Hits))
  /\ \A x \in Tests :
       LET r == Do(With("ToR", x))
           Hits == {q \in Bounds(pos) : DoAt(q, With("IfR", x)).ok}
       IN IF Hits = {} THEN Unmoved(r) ELSE r = Go(First(Hits))

(* ---- C04: a run is what repeated IfR reads ------------------------------ *)
RECURSIVE Repeat(_, _)
Repeat(p, o) == LET r == DoAt(p, o) IN IF r.ok THEN Repeat(r.p, o) ELSE p
LawC04 == \A x \in Tests :
  LET r == Do(With("WhileR", x))
      w(n) == Do([op |-> "While", b |-> With("IfR", x), n |-> n])
  IN /\ r.p = Repeat(pos, With("IfR", x)) /\ (r.ok <=> r.p # pos)
     /\ w(N + 2) = r
     /\ w(1).p = Do(With("IfR", x)).p /\ w(2).p = DoAt(w(1).p, With("IfR", x)).p

(* ---- C05: mirrors ------------------------------------------------------- *)
LawC05 ==
  /\ \A n \in {<<"If", "RevIf">>, <<"IfFold", "RevIfFold">>} : \A s \in Strings :
       /\ LET f == Do([op |-> n[1], s |-> s]) IN f.ok => DoAt(f.p, [op |-> n[2], s |-> s]) = Go(pos)
       /\ LET b == Do([op |-> n[2], s |-> s]) IN
            IF b.ok THEN DoAt(b.p, [op |-> n[1], s |-> s]) = Go(pos) ELSE b.p = pos
  /\ \A s1, s2 \in Strings : LET r == Do([op |-> "RevIfAny", ss |-> <<s1, s2>>])
                                 a == Do([op |-> "RevIf", s |-> s1])
                                 b == Do([op |-> "RevIf", s |-> s2]) IN
       r = (IF a.ok THEN a ELSE b)
  /\ \A x \in Tests :
       /\ LET r == Do(With("RevIfR", x)) IN
            IF pos > 0 /\ Accepts(x, RuneBefore(pos)[1]) THEN r = Go(RuneBefore(pos)[2]) ELSE Unmoved(r)
       /\ LET f == Do(With("IfR", x)) IN
            f.ok /\ Valid => DoAt(f.p, With("RevIfR", x)) = Go(pos) \/ ~(pos \in Bounds(0))

(* ---- C06 ---------------------------------------------------------------- *)
LawC06 ==
  /\ \A n \in {<<"RevTo", "RevIf">>, <<"RevToFold", "RevIfFold">>} : \A s \in Strings \ {<<>>} :
       LET r == Do([op |-> n[1], s |-> s])
           Hits == {q \in 0..pos : DoAt(q, [op |-> n[2], s |-> s]).ok}
       IN IF Hits = {} THEN Unmoved(r) ELSE r = Go(Last(Hits))
  /\ \A x \in Tests :
       LET r == Do(With("RevToR", x))
           Hits == {q \in RevBounds(pos) : DoAt(q, With("RevIfR", x)).ok}
           w == Do(With("RevWhileR", x))
       IN /\ IF Hits = {} THEN Unmoved(r) ELSE r = Go(Last(Hits))
          /\ w.p = Repeat(pos, With("RevIfR", x)) /\ (w.ok <=> w.p # pos)

(* ---- C07 ---------------------------------------------------------------- *)
LawC07 ==
  /\ \A n \in 0..4 :
       LET f == Do([op |-> "MoveRunes", n |-> n])
           b == Do([op |-> "MoveRunes", n |-> -n])
           s == Do([op |-> "ScanString", n |-> n])
       IN /\ f.ok <=> Cardinality(Bounds(pos)) > n
          /\ b.ok <=> Cardinality(RevBounds(pos)) > n
          /\ f.ok => f.p \in Bounds(pos) /\ Cardinality({q \in Bounds(pos) : q < f.p}) = n
          /\ b.ok => b.p \in RevBounds(pos) /\ Cardinality({q \in RevBounds(pos) : q > b.p}) = n
          /\ ~f.ok => f.p = pos
          /\ ~b.ok => b.p = pos
          /\ s.ok = f.ok /\ s.p = f.p /\ (s.ok => s.v = Sub(pos, s.p))
          /\ f.ok /\ Valid /\ pos \in Bounds(0) => DoAt(f.p, [op |-> "MoveRunes", n |-> -n]) = Go(pos)
          /\ b.ok /\ Valid /\ pos \in Bounds(0) => DoAt(b.p, [op |-> "MoveRunes", n |-> n]) = Go(pos)
  /\ LET r == Do([op |-> "ReadRune"]) IN
       IF pos < N /\ IsEncoding(Sub(pos, RuneAt(pos)[2]))
       THEN r = Res(TRUE, RuneAt(pos)[2], <<RuneAt(pos)[1]>>) ELSE Unmoved(r)
  /\ LET r == Do([op |-> "RevReadRune"]) IN
       IF pos > 0 /\ IsEncoding(Sub(RuneBefore(pos)[2], pos))
       THEN r = Res(TRUE, RuneBefore(pos)[2], <<RuneBefore(pos)[1]>>) ELSE Unmoved(r)

(* ---- C08: against plain arithmetic -------------------------------------- *)
RECURSIVE ValueOf(_, _)
ValueOf(d, base) == IF d = <<>> THEN 0 ELSE base * ValueOf(SubSeq(d, 1, Len(d)-1), base) + d[Len(d)]
Pow(b) == IF b = 8 THEN 128 ELSE 32768
AllDigits(a, b, base) == \A i \in (a+1)..b : IsDigit(text[i], base)
DigitsOf(a, b) == [i \in 1..(b-a) |-> DigitValue(text[a+i])]
LawC08 == \A base \in {8, 10, 16}, bits \in {8, 16} :
  LET u == Do([op |-> "ReadUint", base |-> base, bits |-> bits])
      i == Do([op |-> "ReadInt", base |-> base, bits |-> bits])
      Best(from, max) == {q \in (from+1)..N : AllDigits(from, q, base) /\ ValueOf(DigitsOf(from, q), base) <= max}
      sgn == pos < N /\ text[pos+1] \in {43, 45}
      from == IF sgn THEN pos + 1 ELSE pos
      neg == sgn /\ text[pos+1] = 45
      U == Best(pos, 2*Pow(bits) - 1)
      I == Best(from, IF neg THEN Pow(bits) ELSE Pow(bits) - 1)
  IN /\ IF U = {} THEN Unmoved(u)
        ELSE u.ok /\ u.p = Last(U) /\ ValueOf(Tail(u.v), base) = ValueOf(DigitsOf(pos, u.p), base) /\ u.v[1] = 0
     /\ IF I = {} THEN Unmoved(i)
        ELSE /\ i.ok /\ i.p = Last(I)
             /\ ValueOf(Tail(i.v), base) = ValueOf(DigitsOf(from, i.p), base)
             /\ i.v[1] = (IF neg /\ ValueOf(Tail(i.v), base) # 0 THEN 1 ELSE 0)
     /\ \A bad \in {<<2, 8>>, <<10, 7>>, <<0, 0>>} :
          Unmoved(Do([op |-> "ReadInt", base |-> bad[1], bits |-> bad[2]])) /\ Unmoved(Do([op |-> "ReadUint", base |-> bad[1], bits |-> bad[2]]))
(* the limits of the wide types, digit by digit *)
ASSUME /\ Limits[10][31] = <<2,1,4,7,4,8,3,6,4,8>>
       /\ Limits[10][32] = <<4,2,9,4,9,6,7,2,9,6>>
       /\ Limits[10][63] = <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,8>>
       /\ Limits[10][64] = <<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,1,6,1,6>>
       /\ Limits[16][64] = <<1>> \o [i \in 1..16 |-> 0]
       /\ Limits[8][64]  = <<2>> \o [i \in 1..21 |-> 0]
       /\ Limits[8][63]  = <<1>> \o [i \in 1..21 |-> 0]

(* ---- C09 ---------------------------------------------------------------- *)
Words == [l |-> <<TrueWords[1], FalseWords[1]>>, Cc |-> <<TrueWords[2], FalseWords[2]>>, U |-> <<TrueWords[3], FalseWords[3]>>]
LawC09 ==
  /\ \A f \in {"l", "Cc", "U"} : LET r == Do([op |-> "ReadBool", f |-> f]) IN
       /\ r.ok <=> \E q \in pos..N : Sub(pos, q) \in Range(Words[f])
       /\ r.ok => Sub(pos, r.p) = Words[f][IF r.v = <<1>> THEN 1 ELSE 2] /\ r.v \in {<<0>>, <<1>>}
       /\ ~r.ok => r.p = pos
  /\ \A f \in {"", "*"} : LET r == Do([op |-> "ReadBool", f |-> f]) IN
       IF \E g \in {"l", "Cc", "U"} : Do([op |-> "ReadBool", f |-> g]).ok
       THEN \E g \in {"l", "Cc", "U"} : r = Do([op |-> "ReadBool", f |-> g]) /\ r.ok
       ELSE Unmoved(r)
  /\ Unmoved(Do([op |-> "ReadBool", f |-> "x"]))

(* ---- C30: how one byte changes line and column -------------------------- *)
LawC30 == \A tab \in {0, 1, 4} :
  LET lc == Do([op |-> "LineCol", n |-> tab]) IN
  /\ lc.p = pos
  /\ IF pos = 0 THEN lc.v = <<1, 1>>
     ELSE LET pv == DoAt(pos-1, [op |-> "LineCol", n |-> tab]).v IN
          CASE text[pos] = 10 -> lc.v = <<pv[1] + 1, 1>>
            [] text[pos] = 9  -> lc.v = <<pv[1], pv[2] + tab>>
            [] OTHER          -> lc.v = <<pv[1], pv[2] + 1>>
=============================================================================
