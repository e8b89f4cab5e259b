-------------------------------- MODULE Utf8 --------------------------------
(* Texts are sequences of bytes 0..255.  Positions are byte offsets from 0,  *)
(* as in the implementation; the byte at offset p is t[p+1].                 *)
(* A decoded rune is a pair <<code point, width>>; width 0 means "no text".  *)
EXTENDS Integers, Sequences, FiniteSets

RuneError == 65533      \* U+FFFD, what an invalid byte decodes to (width 1)
MaxRune   == 1114111

LOCAL Bad == <<RuneError, 1>>
LOCAL IsCont(b) == 128 <= b /\ b <= 191

(* The rune that starts at offset p of t.                                    *)
DecodeAt(t, p) ==
  LET n == Len(t) - p IN
  IF n <= 0 THEN <<RuneError, 0>>
  ELSE LET b0 == t[p+1] IN
    IF b0 < 128 THEN <<b0, 1>>
    ELSE IF b0 < 194 \/ b0 > 244 \/ n < 2 THEN Bad
    ELSE IF b0 < 224 THEN
      IF IsCont(t[p+2]) THEN <<(b0-192)*64 + (t[p+2]-128), 2>> ELSE Bad
    ELSE
      LET lo == IF b0 = 224 THEN 160 ELSE IF b0 = 240 THEN 144 ELSE 128
          hi == IF b0 = 237 THEN 159 ELSE IF b0 = 244 THEN 143 ELSE 191
          b1 == t[p+2]
      IN IF b1 < lo \/ b1 > hi \/ n < 3 THEN Bad
         ELSE IF ~IsCont(t[p+3]) THEN Bad
         ELSE IF b0 < 240 THEN
           <<(b0-224)*4096 + (b1-128)*64 + (t[p+3]-128), 3>>
         ELSE IF n < 4 THEN Bad
         ELSE IF ~IsCont(t[p+4]) THEN Bad
         ELSE <<(b0-240)*262144 + (b1-128)*4096 + (t[p+3]-128)*64 + (t[p+4]-128), 4>>

(* The rune that ends at offset p of t: the unique valid encoding that ends  *)
(* there, or else one invalid byte.                                          *)
DecodeBefore(t, p) ==
  IF p = 0 THEN <<RuneError, 0>>
  ELSE IF t[p] < 128 THEN <<t[p], 1>>
  ELSE
    LET Valid(k) == LET d == DecodeAt(SubSeq(t, p-k+1, p), 0) IN d[2] = k
        Ks == {k \in 2..4 : k <= p /\ Valid(k)}
    IN IF Ks = {} THEN Bad
       ELSE LET w == CHOOSE x \in Ks : TRUE
            IN DecodeAt(SubSeq(t, p-w+1, p), 0)

RECURSIVE ValidFrom(_, _)
ValidFrom(t, p) ==
  p >= Len(t) \/ LET d == DecodeAt(t, p) IN d # Bad /\ ValidFrom(t, p + d[2])
ValidUtf8(t) == ValidFrom(t, 0)

Encode(r) ==
  IF r < 128 THEN <<r>>
  ELSE IF r < 2048 THEN <<192 + (r \div 64), 128 + (r % 64)>>
  ELSE IF r < 65536 THEN <<224 + (r \div 4096), 128 + ((r \div 64) % 64), 128 + (r % 64)>>
  ELSE <<240 + (r \div 262144), 128 + ((r \div 4096) % 64), 128 + ((r \div 64) % 64), 128 + (r % 64)>>

(* Simple case folding: the least member of the orbit of r stands for all of *)
(* it.  Covered: ASCII, Latin-1, Greek, basic Cyrillic, Deseret (four bytes) *)
(* and the orbits with members of different width.  Code points of other     *)
(* scripts with case must not be used in fold calls by the checks.           *)
Canon(r) ==
  IF r < 65 THEN r
  ELSE IF r <= 90 THEN r + 32
  ELSE IF r < 128 THEN r
  ELSE IF 192 <= r /\ r <= 222 /\ r # 215 THEN r + 32
  ELSE IF 913 <= r /\ r <= 939 /\ r # 930 THEN r + 32
  ELSE IF 1040 <= r /\ r <= 1071 THEN r + 32
  ELSE IF 1024 <= r /\ r <= 1039 THEN r + 80
  ELSE IF 66560 <= r /\ r <= 66599 THEN r + 40
  ELSE CASE r = 8490 -> 107      \* Kelvin sign  ~ k
         [] r = 383  -> 115      \* long s       ~ s
         [] r = 8491 -> 229      \* Angstrom     ~ a with ring
         [] r = 376  -> 255      \* Y diaeresis
         [] r = 7838 -> 223      \* capital sharp s
         [] r = 181  -> 956      \* micro        ~ mu
         [] r = 962  -> 963      \* final sigma
         [] r = 8486 -> 969      \* Ohm          ~ omega
         [] r = 976  -> 946      \* beta symbol
         [] OTHER    -> r

(* Compares up to k >= 1 runes from the offsets i and j: <<equal, i', j'>>.   *)
RECURSIVE EqualFoldFrom(_, _, _, _, _)
EqualFoldFrom(a, i, b, j, k) ==
  IF i >= Len(a) \/ j >= Len(b) THEN <<i >= Len(a) /\ j >= Len(b), i, j>>
  ELSE IF k <= 1 THEN
    LET x == DecodeAt(a, i)
        y == DecodeAt(b, j)
    IN <<Canon(x[1]) = Canon(y[1]), i + x[2], j + y[2]>>
  ELSE LET h == EqualFoldFrom(a, i, b, j, k \div 2)
       IN IF h[1] THEN EqualFoldFrom(a, h[2], b, h[3], k - (k \div 2)) ELSE h
EqualFold(a, b) == EqualFoldFrom(a, 0, b, 0, Len(a) + 1)[1]

Range(s) == {s[i] : i \in 1..Len(s)}
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
=============================================================================
