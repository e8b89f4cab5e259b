----------------------------- MODULE MCSegments -----------------------------
(* Laws of tokens, graphs, sorting and segmentation on the specification.    *)
EXTENDS Segments, TLC, Json

CONSTANTS MaxPos, MaxSegs

Tokens == {t \in [a : 0..MaxPos, b : 0..MaxPos] : t.a <= t.b}
Bytes(t) == t.a..(t.b - 1)

VARIABLES acc, root, list
vars == <<acc, root, list>>

Named(k, t) == [i |-> ToString(k), a |-> t.a, b |-> t.b]

Init == acc = <<>> /\ root = [i |-> "root", a |-> 0, b |-> 0, c |-> <<>>] /\ list = <<>>
(* list is the history: all segments that were given, accepted or not        *)
Next == /\ Len(list) < MaxSegs
        /\ \E t \in Tokens :
             LET s == Named(Len(list) + 1, t) IN
             /\ IF Accepts(acc, s)
                THEN acc' = Append(acc, s) /\ root' = AppendTo(root, s)
                ELSE UNCHANGED <<acc, root>>
             /\ list' = Append(list, s)
Spec == Init /\ [][Next]_vars

(* C20: every history of appends gives a graph of the accepted segments, up  *)
(* to the order of equal empty ones.                                         *)
LawC20 ==
  /\ GraphOf(acc, root)
  /\ \A j, k \in 1..Len(acc) : ~Clashes(acc[j], acc[k])
  /\ Len(Flame("", 1, root)) = Len(acc) + 1
  /\ \A k \in 1..Len(acc) : acc[k] \in {Leafs(root)[j] : j \in 1..Len(Leafs(root))}
       \/ \E j \in 1..Len(acc) : j # k /\ Covers(acc[k], acc[j])

(* C19: all pairs of tokens; looked at once, in the first state.             *)
LawC19 ==
  list # <<>> \/
  \A t, u \in Tokens :
    /\ Before(t, u) \/ After(t, u) \/ Covers(t, u) \/ Covers(u, t) \/ Clashes(t, u)
    /\ Clashes(t, u) => ~(Before(t, u) \/ After(t, u) \/ Covers(t, u) \/ Covers(u, t))
    /\ Clashes(t, u) = Clashes(u, t)
    /\ Clashes(t, u) <=> /\ Bytes(t) \cap Bytes(u) # {}
                         /\ ~(Bytes(t) \subseteq Bytes(u)) /\ ~(Bytes(u) \subseteq Bytes(t))
    /\ Covers(t, u) => Bytes(u) \subseteq Bytes(t)
    /\ ~Empty(u) /\ Bytes(u) \subseteq Bytes(t) => Covers(t, u)
    /\ ~Empty(t) /\ ~Empty(u) => (Before(t, u) <=> \A x \in Bytes(t), y \in Bytes(u) : x < y)
    /\ Before(t, u) => Bytes(t) \cap Bytes(u) = {}
    /\ Covers(t, u) /\ Covers(u, t) => t = u
    /\ Merge(t, u) = Merge(u, t) /\ Covers(Merge(t, u), t) /\ Covers(Merge(t, u), u)
    /\ \A v \in Tokens : Covers(v, t) /\ Covers(v, u) => Covers(v, Merge(t, u))
    /\ Covers(t, u) => LET s == Split(t, u) IN
         s[1].a = t.a /\ s[1].b = u.a /\ s[2].a = u.b /\ s[2].b = t.b
         /\ Length(s[1]) + Length(u) + Length(s[2]) = Length(t)

(* C21 and C22 on all lists of segments (not only those that a graph takes). *)
NextList  == /\ Len(list) < MaxSegs
             /\ \E t \in Tokens, k \in 1..2 : list' = Append(list, Named(k, t))
             /\ UNCHANGED <<acc, root>>
SpecLists == Init /\ [][NextList]_vars
Orders == {<<>>, <<"1">>, <<"2">>, <<"1", "2">>, <<"2", "1">>}

LawC21 ==
  \A order \in Orders :
    LET s == Sorted(order, list) IN
    /\ SameBag(s, list)
    /\ \A j, k \in 1..Len(s) : j < k => ~LessBy(order, s[k], s[j])
    /\ \A j, k \in 1..Len(s) : j < k /\ Covers(s[k], s[j]) => SameRange(s[j], s[k])
    /\ \A t \in Tokens :        \* equal ranges and ranks keep their order
         \A r \in 0..Len(order) :
           LET mine(x) == SameRange(x, t) /\ Rank(order, x) = r
           IN SelectSeq(s, mine) = SelectSeq(list, mine)

LawC22 ==
  \A t \in Tokens :
    Divides(t, list) =>
      LET s == Tiles("gap", t.a, t.b, list) IN
      /\ IF s = <<>> THEN Empty(t) ELSE s[1].a = t.a /\ s[Len(s)].b = t.b
      /\ \A k \in 1..Len(s)-1 : s[k].b = s[k+1].a
      /\ SelectSeq(s, LAMBDA x : x.i # "gap") = list
      /\ \A k \in 1..Len(s) : s[k].i = "gap" => ~Empty(s[k])
(* What is replayed: complete histories, all lists, all tokens.              *)
Triple(x) == <<x.i, x.a, x.b>>
Triples == [k \in 1..Len(list) |-> Triple(list[k])]
EmitFull  == Len(list) = MaxSegs => PrintT(ToJson([segs |-> Triples]))
EmitLists == PrintT(ToJson([segs |-> Triples]))
EmitTokens == list = <<>> => \A t \in Tokens : PrintT(ToJson([t |-> <<t.a, t.b>>]))
=============================================================================
