------------------------------- MODULE LuaText -------------------------------
(* Lua 5.4 on bytes: literals, symbols, and the grammar of chapter 9 of the  *)
(* manual as a predictive recogniser of symbol lists.  (Precedence plays no  *)
(* role for what is a program.)                                              *)
(*                                                                           *)
(* Whitespace is space, tab, carriage return and newline.  The values of     *)
(* decimal and \u{} escapes are not limited.                                 *)
EXTENDS ByteWalk

IsAt(t, p, w) == p + Len(w) <= Len(t) /\ SubSeq(t, p+1, p+Len(w)) = w

Digits  == 48..57
Hex     == (48..57) \cup (65..70) \cup (97..102)
Letters == (65..90) \cup (97..122) \cup {95}
Spaces  == {9, 10, 13, 32}

(* ---------------------------------------------------------------- literals *)
(* Digits with at most one point and an optional exponent, from p, with      *)
(* digits of the set B and the exponent letters E; -1 if there is no digit.  *)
Mantissa(t, p, B, E) ==
  LET i == Span(t, p, B)
      f == IF InAt(t, i, {46}) THEN Span(t, i+1, B) ELSE i
      s == IF InAt(t, f+1, {43, 45}) THEN f + 2 ELSE f + 1
  IN IF i = p /\ f <= p + 1 THEN -1
     ELSE IF InAt(t, f, E) /\ InAt(t, s, Digits) THEN Span(t, s, Digits) ELSE f
NumeralEnd(t, p) ==
  LET h == IF InAt(t, p, {48}) /\ InAt(t, p+1, {88, 120}) THEN Mantissa(t, p+2, Hex, {80, 112}) ELSE -1
  IN IF h # -1 THEN h ELSE Mantissa(t, p, Digits, {69, 101})

(* The escape at p (a backslash): the position behind it, or -1.             *)
EscapeEnd(t, p) ==
  IF InAt(t, p+1, {97, 98, 102, 110, 114, 116, 118, 34, 39, 92}) THEN p + 2
  ELSE IF InAt(t, p+1, {122}) THEN Span(t, p+2, {9, 10, 11, 12, 13, 32})
  ELSE IF IsAt(t, p+1, <<13, 10>>) \/ IsAt(t, p+1, <<10, 13>>) THEN p + 3
  ELSE IF InAt(t, p+1, {10, 13}) THEN p + 2
  ELSE IF InAt(t, p+1, Digits) THEN p + 2     \* more digits look like characters
  ELSE IF InAt(t, p+1, {120}) /\ InAt(t, p+2, Hex) /\ InAt(t, p+3, Hex) THEN p + 4
  ELSE IF IsAt(t, p+1, <<117, 123>>)
       THEN LET e == Span(t, p+3, Hex) IN IF e > p+3 /\ InAt(t, e, {125}) THEN e + 1 ELSE -1
  ELSE -1
RECURSIVE QuotedUpTo(_, _, _, _)
QuotedUpTo(t, p, quote, k) ==     \* up to k characters: <<goes on, end>>
  IF k > 1 THEN LET a == QuotedUpTo(t, p, quote, Half(k)) IN IF a[1] THEN QuotedUpTo(t, a[2], quote, k - Half(k)) ELSE a
  ELSE IF p >= Len(t) THEN <<FALSE, -1>>
  ELSE IF t[p+1] = quote THEN <<FALSE, p + 1>>
  ELSE IF t[p+1] \in {10, 13} THEN <<FALSE, -1>>
  ELSE IF t[p+1] = 92 THEN LET e == EscapeEnd(t, p) IN <<e # -1, e>>
  ELSE <<TRUE, p + 1>>
QuotedEnd(t, p, quote) == QuotedUpTo(t, p, quote, Len(t) - p + 1)[2]
(* [==[ ... ]==]                                                             *)
LongEnd(t, p) ==
  LET a == Span(t, p+1, {61})
      lev == SubSeq(t, p+2, a)
      e == Find(t, a+1, <<93>> \o lev \o <<93>>)
  IN IF ~InAt(t, p, {91}) \/ ~InAt(t, a, {91}) THEN -1
     ELSE IF e = -1 THEN -1 ELSE e + Len(lev) + 2
StringEnd(t, p) ==
  IF InAt(t, p, {34, 39}) THEN QuotedEnd(t, p+1, t[p+1]) ELSE LongEnd(t, p)
OpensLong(t, p) == InAt(t, p, {91}) /\ InAt(t, Span(t, p+1, {61}), {91})
(* -- up to the end of the line, or --[==[ ... ]==]                          *)
LineEnd(t, p) == LET e == Find(t, p, <<10>>) IN IF e = -1 THEN Len(t) ELSE e
CommentEnd(t, p) ==
  IF ~IsAt(t, p, <<45, 45>>) THEN -1
  ELSE IF OpensLong(t, p+2) THEN LongEnd(t, p+2) ELSE LineEnd(t, p+2)

(* ----------------------------------------------------------------- symbols *)
Chr == [b \in 33..126 |->
  LET all == "!\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
  IN SubSeq(all, b - 32, b - 32)]
RECURSIVE Text(_, _, _)
Text(t, p, q) ==
  IF p >= q THEN ""
  ELSE IF q = p + 1 THEN (IF t[p+1] \in 33..126 THEN Chr[t[p+1]] ELSE "?")
  ELSE Text(t, p, Half(p + q)) \o Text(t, Half(p + q), q)

Reserved == {"and", "break", "do", "else", "elseif", "end", "false", "for", "function", "goto", "if", "in",
             "local", "nil", "not", "or", "repeat", "return", "then", "true", "until", "while"}
Ops3 == {"..."}
Ops2 == {"//", "==", "~=", "<=", ">=", "<<", ">>", "..", "::"}
Ops1 == {"+", "-", "*", "/", "%", "^", "#", "&", "~", "|", "<", ">", "=", "(", ")", "{", "}", "[", "]", ";", ":", ",", "."}

Sym(k, w, a, b) == [k |-> k, w |-> w, a |-> a, b |-> b]
(* The symbol at p, which is not a space or comment.                         *)
SymbolAt(t, p) ==
  LET n == Span(t, p, Letters \cup Digits)
      d == NumeralEnd(t, p)
      s == StringEnd(t, p)
      w(k) == IF p + k <= Len(t) THEN Text(t, p, p+k) ELSE ""
  IN IF InAt(t, p, Letters)
     THEN LET x == Text(t, p, n) IN Sym(IF x \in Reserved THEN "word" ELSE "name", x, p, n)
     ELSE IF IsAt(t, p, <<45, 45>>) THEN Sym("bad", "", p, p+1)       \* a comment that is never closed
     ELSE IF d # -1 THEN Sym(IF InAt(t, d, Letters \cup Digits \cup {46}) THEN "bad" ELSE "num", "", p, d)
     ELSE IF InAt(t, p, {34, 39}) \/ OpensLong(t, p) THEN (IF s = -1 THEN Sym("bad", "", p, p+1) ELSE Sym("str", "", p, s))
     ELSE IF w(3) \in Ops3 THEN Sym("op", w(3), p, p+3)
     ELSE IF w(2) \in Ops2 THEN Sym("op", w(2), p, p+2)
     ELSE IF w(1) \in Ops1 THEN Sym("op", w(1), p, p+1)
     ELSE Sym("bad", "", p, p+1)
RECURSIVE SymbolsFrom(_, _, _)
SymbolsFrom(t, p, k) ==     \* up to k symbols: [end, list]
  LET q == Span(t, p, Spaces)
      c == CommentEnd(t, q)
      s == SymbolAt(t, q)
  IN IF q = Len(t) THEN [p |-> q, l |-> <<>>]
     ELSE IF k > 1 THEN
          LET a == SymbolsFrom(t, q, Half(k))
              b == SymbolsFrom(t, a.p, k - Half(k))
          IN IF a.p = Len(t) THEN a ELSE [p |-> b.p, l |-> a.l \o b.l]
     ELSE IF c # -1 THEN [p |-> c, l |-> <<Sym("com", "", q, c)>>]
     ELSE [p |-> s.b, l |-> <<s>>]
AllSymbols(t, p) == SymbolsFrom(t, p, Len(t) - p + 1).l
(* Where the program of a script begins: behind the #! line.                 *)
ToLineBreak(t, p) == Span(t, p, (0..255) \ {10, 13})
ScriptStart(t) == IF IsAt(t, 0, <<35, 33>>) THEN ToLineBreak(t, 2) ELSE 0
Symbols(all) == SelectSeq(all, LAMBDA s : s.k # "com")
Ranges(all, kind) == {<<all[k].a, all[k].b>> : k \in {j \in 1..Len(all) : all[j].k = kind}}

(* ----------------------------------------------------------------- grammar *)
(* Y is the list of symbols; readers of a construct take the index of its    *)
(* first symbol and return the index behind it, 0 if it is not there.        *)
Is(Y, i, w)  == i > 0 /\ i <= Len(Y) /\ Y[i].k \in {"op", "word"} /\ Y[i].w = w
IsIn(Y, i, W) == i > 0 /\ i <= Len(Y) /\ Y[i].k \in {"op", "word"} /\ Y[i].w \in W
IsName(Y, i) == i > 0 /\ i <= Len(Y) /\ Y[i].k = "name"
Eat(Y, i, w) == IF Is(Y, i, w) THEN i + 1 ELSE 0
EatName(Y, i) == IF IsName(Y, i) THEN i + 1 ELSE 0

UnOps  == {"-", "not", "#", "~"}
BinOps == {"+", "-", "*", "/", "//", "^", "%", "&", "~", "|", ">>", "<<", "..", "<", "<=", ">", ">=", "==", "~=", "and", "or"}
BlockEnds == {"end", "else", "elseif", "until", "return"}

RECURSIVE Exp(_, _)
RECURSIVE Block(_, _)
RECURSIVE Suffixed(_, _, _)
RECURSIVE NameList(_, _)
RECURSIVE ExpList(_, _)
RECURSIVE Fields(_, _)
RECURSIVE VarsFrom(_, _)
RECURSIVE IfRest(_, _)
RECURSIVE FuncNameRest(_, _)
RECURSIVE AttNames(_, _)
RECURSIVE Stats(_, _)

NameList(Y, i) ==
  LET j == EatName(Y, i)
  IN IF j = 0 THEN 0 ELSE IF Is(Y, j, ",") /\ IsName(Y, j+1) THEN NameList(Y, j+1) ELSE j
ExpList(Y, i) ==
  LET j == Exp(Y, i) IN IF j = 0 THEN 0 ELSE IF Is(Y, j, ",") THEN ExpList(Y, j+1) ELSE j

(* parameters and body of a function                                         *)
FuncBody(Y, i) ==
  LET a == Eat(Y, i, "(")
      n == NameList(Y, a)
      m == IF Is(Y, a, "...") THEN a + 1
           ELSE IF n = 0 THEN a
           ELSE IF Is(Y, n, ",") THEN Eat(Y, n+1, "...") ELSE n
      b == Eat(Y, m, ")")
  IN IF a = 0 \/ m = 0 \/ b = 0 THEN 0 ELSE Eat(Y, Block(Y, b), "end")

Field(Y, i) ==
  IF Is(Y, i, "[") THEN LET j == Eat(Y, Eat(Y, Exp(Y, i+1), "]"), "=") IN IF j = 0 THEN 0 ELSE Exp(Y, j)
  ELSE IF IsName(Y, i) /\ Is(Y, i+1, "=") THEN Exp(Y, i+2)
  ELSE Exp(Y, i)
Fields(Y, i) ==           \* up to the closing brace
  IF Is(Y, i, "}") THEN i + 1
  ELSE LET j == Field(Y, i)
       IN IF j = 0 THEN 0
          ELSE IF IsIn(Y, j, {",", ";"}) THEN Fields(Y, j+1)
          ELSE Eat(Y, j, "}")

(* A call's arguments at i; 0 if there are none.                             *)
Args(Y, i) ==
  IF Is(Y, i, "(") THEN (IF Is(Y, i+1, ")") THEN i + 2 ELSE Eat(Y, ExpList(Y, i+1), ")"))
  ELSE IF Is(Y, i, "{") THEN Fields(Y, i+1)
  ELSE IF i > 0 /\ i <= Len(Y) /\ Y[i].k = "str" THEN i + 1
  ELSE 0
(* What follows a name or parentheses; kind of what was read so far: "var",  *)
(* "call" or "paren".                                                        *)
NoSuffixed == [i |-> 0, kind |-> "none"]
Suffixed(Y, i, kind) ==
  IF Is(Y, i, ".") THEN (IF IsName(Y, i+1) THEN Suffixed(Y, i+2, "var") ELSE NoSuffixed)
  ELSE IF Is(Y, i, "[")
       THEN LET j == Eat(Y, Exp(Y, i+1), "]") IN IF j = 0 THEN NoSuffixed ELSE Suffixed(Y, j, "var")
  ELSE IF Is(Y, i, ":")
       THEN LET j == IF IsName(Y, i+1) THEN Args(Y, i+2) ELSE 0 IN IF j = 0 THEN NoSuffixed ELSE Suffixed(Y, j, "call")
  ELSE IF IsIn(Y, i, {"(", "{"}) \/ (i <= Len(Y) /\ Y[i].k = "str")
       THEN LET j == Args(Y, i) IN IF j = 0 THEN NoSuffixed ELSE Suffixed(Y, j, "call")
  ELSE [i |-> i, kind |-> kind]
PrefixExp(Y, i) ==
  IF IsName(Y, i) THEN Suffixed(Y, i+1, "var")
  ELSE IF Is(Y, i, "(")
       THEN LET j == Eat(Y, Exp(Y, i+1), ")") IN IF j = 0 THEN NoSuffixed ELSE Suffixed(Y, j, "paren")
  ELSE NoSuffixed

SimpleExp(Y, i) ==
  IF i = 0 \/ i > Len(Y) THEN 0
  ELSE IF Y[i].k \in {"num", "str"} \/ IsIn(Y, i, {"nil", "true", "false", "..."}) THEN i + 1
  ELSE IF Is(Y, i, "function") THEN FuncBody(Y, i+1)
  ELSE IF Is(Y, i, "{") THEN Fields(Y, i+1)
  ELSE PrefixExp(Y, i).i
Exp(Y, i) ==
  IF i = 0 THEN 0
  ELSE LET j == IF IsIn(Y, i, UnOps) THEN Exp(Y, i+1) ELSE SimpleExp(Y, i)
       IN IF j = 0 THEN 0 ELSE IF IsIn(Y, j, BinOps) THEN Exp(Y, j+1) ELSE j

(* { , var } = explist                                                       *)
VarsFrom(Y, i) ==
  IF Is(Y, i, "=") THEN ExpList(Y, i+1)
  ELSE IF Is(Y, i, ",")
       THEN LET x == PrefixExp(Y, i+1) IN IF x.kind = "var" THEN VarsFrom(Y, x.i) ELSE 0
  ELSE 0
IfRest(Y, i) ==           \* behind the block of an if
  IF Is(Y, i, "end") THEN i + 1
  ELSE IF Is(Y, i, "else") THEN Eat(Y, Block(Y, i+1), "end")
  ELSE IF Is(Y, i, "elseif")
       THEN LET j == Eat(Y, Exp(Y, i+1), "then") IN IF j = 0 THEN 0 ELSE IfRest(Y, Block(Y, j))
  ELSE 0
FuncNameRest(Y, i) ==
  IF Is(Y, i, ".") THEN (IF IsName(Y, i+1) THEN FuncNameRest(Y, i+2) ELSE 0)
  ELSE IF Is(Y, i, ":") THEN EatName(Y, i+1)
  ELSE i
AttNames(Y, i) ==
  LET j == EatName(Y, i)
      k == IF Is(Y, j, "<") THEN Eat(Y, EatName(Y, j+1), ">") ELSE j
  IN IF j = 0 \/ k = 0 THEN 0 ELSE IF Is(Y, k, ",") THEN AttNames(Y, k+1) ELSE k
DoBlock(Y, i) == LET d == Eat(Y, i, "do") IN IF d = 0 THEN 0 ELSE Eat(Y, Block(Y, d), "end")

Stat(Y, i) ==
  IF i = 0 \/ i > Len(Y) THEN 0
  ELSE IF Is(Y, i, ";") \/ Is(Y, i, "break") THEN i + 1
  ELSE IF Is(Y, i, "::") THEN Eat(Y, EatName(Y, i+1), "::")
  ELSE IF Is(Y, i, "goto") THEN EatName(Y, i+1)
  ELSE IF Is(Y, i, "do") THEN DoBlock(Y, i)
  ELSE IF Is(Y, i, "while") THEN DoBlock(Y, Exp(Y, i+1))
  ELSE IF Is(Y, i, "repeat") THEN LET j == Eat(Y, Block(Y, i+1), "until") IN IF j = 0 THEN 0 ELSE Exp(Y, j)
  ELSE IF Is(Y, i, "if") THEN LET j == Eat(Y, Exp(Y, i+1), "then") IN IF j = 0 THEN 0 ELSE IfRest(Y, Block(Y, j))
  ELSE IF Is(Y, i, "for")
       THEN IF IsName(Y, i+1) /\ Is(Y, i+2, "=")
            THEN LET a == Eat(Y, Exp(Y, i+3), ",")
                     b == IF a = 0 THEN 0 ELSE Exp(Y, a)
                     c == IF Is(Y, b, ",") THEN Exp(Y, b+1) ELSE b
                 IN IF c = 0 THEN 0 ELSE DoBlock(Y, c)
            ELSE LET a == Eat(Y, NameList(Y, i+1), "in") IN IF a = 0 THEN 0 ELSE DoBlock(Y, ExpList(Y, a))
  ELSE IF Is(Y, i, "function")
       THEN LET j == EatName(Y, i+1) IN IF j = 0 THEN 0 ELSE FuncBody(Y, FuncNameRest(Y, j))
  ELSE IF Is(Y, i, "local")
       THEN IF Is(Y, i+1, "function") THEN (IF IsName(Y, i+2) THEN FuncBody(Y, i+3) ELSE 0)
            ELSE LET j == AttNames(Y, i+1) IN IF Is(Y, j, "=") THEN ExpList(Y, j+1) ELSE j
  ELSE LET x == PrefixExp(Y, i)
       IN CASE x.kind = "call" -> x.i
            [] x.kind = "var"  -> VarsFrom(Y, x.i)
            [] OTHER -> 0
Stats(Y, i) ==
  IF i = 0 THEN 0
  ELSE IF i > Len(Y) \/ IsIn(Y, i, BlockEnds) THEN i
  ELSE Stats(Y, Stat(Y, i))
Block(Y, i) ==
  LET j == Stats(Y, i)
      k == IF j + 1 > Len(Y) \/ IsIn(Y, j+1, BlockEnds \cup {";"}) THEN j + 1 ELSE ExpList(Y, j+1)
  IN IF j = 0 THEN 0
     ELSE IF ~Is(Y, j, "return") THEN j
     ELSE IF Is(Y, k, ";") THEN k + 1 ELSE k

(* In a program the symbols tell where the constructs begin.                 *)
Starts(Y, rule) ==
  LET word(k, w) == Is(Y, k, w)
      local(k) == k > 1 /\ word(k-1, "local")
      here(k) ==
        CASE rule = "while"     -> word(k, "while")
          [] rule = "repeat"    -> word(k, "repeat")
          [] rule = "ifelse"    -> word(k, "if")
          [] rule = "goto"      -> word(k, "goto")
          [] rule = "break"     -> word(k, "break")
          [] rule = "retstat"   -> word(k, "return")
          [] rule = "for"       -> word(k, "for") /\ Is(Y, k+2, "=")
          [] rule = "foreach"   -> word(k, "for") /\ ~Is(Y, k+2, "=")
          [] rule = "func"      -> word(k, "function") /\ IsName(Y, k+1) /\ ~local(k)
          [] rule = "localfunc" -> word(k, "local") /\ word(k+1, "function")
          [] rule = "localatt"  -> word(k, "local") /\ ~word(k+1, "function")
          [] rule = "funcdef"   -> word(k, "function") /\ ~IsName(Y, k+1)
          [] rule = "tableconstructor" -> word(k, "{")
  IN {Y[k].a : k \in {j \in 1..Len(Y) : here(j)}}
Rules == {"while", "repeat", "ifelse", "goto", "break", "retstat", "for", "foreach", "func", "localfunc", "localatt",
          "funcdef", "tableconstructor"}
(* The first symbol at or behind p.                                          *)
RECURSIVE SkipTo(_, _)
SkipTo(t, p) == LET q == Span(t, p, Spaces)
                    c == CommentEnd(t, q)
                IN IF c = -1 THEN q ELSE SkipTo(t, c)

IsProgram(Y) == (\A k \in 1..Len(Y) : Y[k].k # "bad") /\ Block(Y, 1) = Len(Y) + 1
=============================================================================
