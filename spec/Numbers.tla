------------------------------ MODULE Numbers -------------------------------
(* Integers of up to 64 bits as digit sequences, most significant first, so  *)
(* that the values stay exact (TLC's own integers have 32 bits).             *)
EXTENDS Integers, Sequences, TLC

DigitValue(b) ==          \* value of an ASCII digit, -1 if it is none
  IF 48 <= b /\ b <= 57 THEN b - 48
  ELSE IF 97 <= b /\ b <= 102 THEN b - 87
  ELSE IF 65 <= b /\ b <= 70 THEN b - 55
  ELSE -1

IsDigit(b, base) == LET v == DigitValue(b) IN v # -1 /\ v < base

RECURSIVE Strip(_)
Strip(d) == IF Len(d) > 1 /\ d[1] = 0 THEN Strip(Tail(d)) ELSE d

(* 2 * d in the given base                                                   *)
RECURSIVE DoubleFrom(_, _, _, _)
DoubleFrom(d, base, i, carry) ==
  IF i = 0 THEN IF carry = 0 THEN <<>> ELSE <<carry>>
  ELSE LET x == 2 * d[i] + carry
       IN Append(DoubleFrom(d, base, i-1, x \div base), x % base)
Double(d, base) == DoubleFrom(d, base, Len(d), 0)

RECURSIVE Pow2(_, _)
Pow2(k, base) == IF k = 0 THEN <<1>> ELSE Double(Pow2(k-1, base), base)

Limits == [b \in {8, 10, 16} |->
            [k \in {7, 8, 15, 16, 31, 32, 63, 64} |-> Pow2(k, b)]]

RECURSIVE LessFrom(_, _, _)
LessFrom(a, b, i) ==
  IF i > Len(a) THEN FALSE
  ELSE IF a[i] # b[i] THEN a[i] < b[i]
  ELSE LessFrom(a, b, i+1)
Less(a0, b0) == LET a == Strip(a0) b == Strip(b0) IN
  IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE LessFrom(a, b, 1)
LessEq(a, b) == ~Less(b, a)

ValidBase(b) == b \in {8, 10, 16}
ValidBits(n) == n \in {8, 16, 32, 64}

(* Offset of the first byte from p up to hi that is no zero, hi if there is  *)
(* none.                                                                     *)
RECURSIVE ZerosEnd(_, _, _)
ZerosEnd(t, p, hi) ==
  IF p >= hi THEN hi
  ELSE IF hi = p + 1 THEN IF t[p+1] = 48 THEN hi ELSE p
  ELSE LET mid == (p + hi) \div 2
           a == ZerosEnd(t, p, mid)
       IN IF a < mid THEN a ELSE ZerosEnd(t, mid, hi)

(* Longest prefix of digits at offset p whose value is below lim, or not     *)
(* above it if incl holds, behind the significant digits acc.                *)
RECURSIVE MoreDigits(_, _, _, _, _, _)
MoreDigits(t, p, base, acc, lim, incl) ==
  IF p >= Len(t) THEN acc
  ELSE IF ~IsDigit(t[p+1], base) THEN acc
  ELSE LET nx == Append(acc, DigitValue(t[p+1]))
           fits == IF incl THEN LessEq(nx, lim) ELSE Less(nx, lim)
       IN IF fits THEN MoreDigits(t, p+1, base, nx, lim, incl) ELSE acc
DigitsAt(t, p, base, lim, incl) ==     \* [end, digits without leading zeros]
  LET z == ZerosEnd(t, p, Len(t))
      d == MoreDigits(t, z, base, <<>>, lim, incl)
  IN [end |-> z + Len(d), d |-> IF d = <<>> /\ z > p THEN <<0>> ELSE d]

NoNumber(p) == [ok |-> FALSE, p |-> p, neg |-> FALSE, d |-> <<>>]

UintAt(t, p, base, bits) ==
  IF ~ValidBase(base) \/ ~ValidBits(bits) THEN NoNumber(p)
  ELSE LET ds == DigitsAt(t, p, base, Limits[base][bits], FALSE)
       IN IF ds.d = <<>> THEN NoNumber(p)
          ELSE [ok |-> TRUE, p |-> ds.end, neg |-> FALSE, d |-> ds.d]

IntAt(t, p, base, bits) ==
  IF ~ValidBase(base) \/ ~ValidBits(bits) THEN NoNumber(p)
  ELSE LET sign == IF p < Len(t) /\ t[p+1] \in {43, 45} THEN 1 ELSE 0
           minus == sign = 1 /\ t[p+1] = 45
           ds == DigitsAt(t, p + sign, base, Limits[base][bits-1], minus)
       IN IF ds.d = <<>> THEN NoNumber(p)
          ELSE [ok |-> TRUE, p |-> ds.end,
                neg |-> minus /\ ds.d # <<0>>, d |-> ds.d]
=============================================================================
