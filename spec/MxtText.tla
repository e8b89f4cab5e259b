------------------------------- MODULE MxtText -------------------------------
(* MXT documents, on bytes: chunks with a header and a content.              *)
(*                                                                           *)
(*   //mark name comment -->salt                                             *)
(*   content                                                                 *)
(*                                                                           *)
(* The header begins with "//" and the name is its second word; the comment  *)
(* goes, over line ends, up to the word that ends with the first "-->"; the  *)
(* salt is the word behind it.  The content ends before the next line that   *)
(* begins with "//" and the salt, or at the end of the text.                 *)
EXTENDS ByteWalk

IsAt(t, p, w) == p + Len(w) <= Len(t) /\ SubSeq(t, p+1, p+Len(w)) = w
WordBytes == 33..255
Slashes == <<47, 47>>
Arrow == <<45, 45, 62>>
(* The line end at p: its length, or 0.                                      *)
NlLen(t, p) == IF IsAt(t, p, <<10>>) THEN 1 ELSE IF IsAt(t, p, <<13, 10>>) THEN 2 ELSE 0

NoHeader == [ok |-> FALSE, p |-> -1, name |-> <<>>, at |-> 0, salt |-> <<>>]
Header(t, p) ==
  LET m  == Span(t, p+2, WordBytes)
      n  == Span(t, m, {32})
      e  == Span(t, n, WordBytes)
      x  == Find(t, e, Arrow)
      a  == x + 3
      b  == Span(t, a, {32})
      c  == IF b > a THEN Span(t, b, WordBytes) ELSE b
      d  == IF b > a THEN Span(t, c, {32}) ELSE b
  IN IF ~IsAt(t, p, Slashes) \/ n = m \/ e = n THEN NoHeader
     ELSE IF x = -1 THEN NoHeader
     ELSE [ok |-> TRUE, p |-> d, name |-> SubSeq(t, n+1, e), at |-> n, salt |-> SubSeq(t, b+1, c)]

(* The next line that begins with "//" and the salt: the position of the     *)
(* line end before it, at or behind p, or the end of the text.               *)
RECURSIVE MarkUpTo(_, _, _, _)
MarkUpTo(t, lo, hi, w) ==     \* -1 if there is none
  IF lo > hi THEN -1
  ELSE IF lo = hi THEN LET n == NlLen(t, lo) IN IF n > 0 /\ IsAt(t, lo + n, w) THEN lo ELSE -1
  ELSE LET a == MarkUpTo(t, lo, Half(lo + hi), w) IN IF a # -1 THEN a ELSE MarkUpTo(t, Half(lo + hi) + 1, hi, w)
NextMark(t, p, salt) == LET a == MarkUpTo(t, p, Len(t) - 1, Slashes \o salt) IN IF a = -1 THEN Len(t) ELSE a

(* One chunk: its end, name and content.                                     *)
NoChunk == [ok |-> FALSE, p |-> -1, name |-> <<>>, content |-> <<>>]
Chunk(t, p) ==
  LET h == Header(t, p)
      n == NlLen(t, h.p)
      c == NextMark(t, h.p + n, h.salt)
  IN IF ~h.ok THEN NoChunk
     ELSE IF h.p = Len(t) \/ (n > 0 /\ NextMark(t, h.p, h.salt) = h.p)
          THEN [ok |-> TRUE, p |-> h.p, name |-> h.name, content |-> <<>>]
     ELSE IF n = 0 THEN NoChunk
     ELSE [ok |-> TRUE, p |-> c, name |-> h.name, content |-> SubSeq(t, h.p + n + 1, c)]

RECURSIVE Chunks(_, _, _)
Chunks(t, p, list) ==     \* p is the end of the last chunk in list
  LET n == NlLen(t, p)
      c == Chunk(t, p + n)
  IN IF n = 0 THEN [p |-> p, list |-> list]
     ELSE IF ~c.ok THEN [p |-> p, list |-> list]
     ELSE Chunks(t, c.p, Append(list, <<c.name, c.content>>))

(* Reading a document: ok, the end and the chunks.                           *)
Document(t) ==
  LET c == Chunk(t, 0)
  IN IF ~c.ok THEN [ok |-> FALSE, p |-> 0, list |-> <<>>]
     ELSE LET r == Chunks(t, c.p, <<<<c.name, c.content>>>>)
          IN [ok |-> TRUE, p |-> r.p, list |-> r.list]

(* ------------------------------------------------------------------ writing *)
(* A chunk to write: name, comment lines, salt, content (a list of lines or  *)
(* nothing), and the line end.                                               *)
Spaced(w) == <<32>> \o w
RECURSIVE Lines(_, _, _)
Lines(nl, pre, ls) == IF ls = <<>> THEN <<>> ELSE nl \o pre \o Head(ls) \o Lines(nl, pre, Tail(ls))
WriteChunk(c, mark, nl) ==
  Slashes \o mark \o Spaced(c.name)
    \o (IF c.comment = <<>> THEN <<32>> ELSE Lines(nl, <<47, 47, 32>>, c.comment) \o nl \o <<47, 47, 45>>)
    \o Arrow \o (IF c.salt = <<>> THEN <<>> ELSE Spaced(c.salt))
    \o (IF c.lines = <<>> THEN <<>> ELSE Lines(nl, <<>>, c.lines))
RECURSIVE WriteFrom(_, _, _)
WriteFrom(cs, mark, nl) ==
  IF cs = <<>> THEN <<>>
  ELSE nl \o WriteChunk(Head(cs), mark, nl) \o WriteFrom(Tail(cs), Head(cs).salt, nl)
Write(cs, nl) == WriteChunk(Head(cs), <<>>, nl) \o WriteFrom(Tail(cs), Head(cs).salt, nl)

RECURSIVE Join(_, _)
Join(ls, nl) == IF ls = <<>> THEN <<>> ELSE IF Len(ls) = 1 THEN ls[1] ELSE ls[1] \o nl \o Join(Tail(ls), nl)
(* What a reader has to give back.                                           *)
Content(c, nl) == Join(c.lines, nl)
(* The content can be written: no line begins like the next marker.          *)
Writable(c) == /\ \A k \in 1..Len(c.lines) : ~IsAt(c.lines[k], 0, Slashes \o c.salt)
               /\ c.lines # <<>> => c.lines[Len(c.lines)] = <<>> \/ c.lines[Len(c.lines)][Len(c.lines[Len(c.lines)])] # 13
=============================================================================
