------------------------------ MODULE MCReaders ------------------------------
(* Builds all small reader expressions, bottom up: a behaviour appends one   *)
(* node after the other; a node with parts takes them from the top of the    *)
(* stack.  Where one node is left on the stack there is an expression, and   *)
(* the laws are checked for its reads of all short texts from all positions. *)
(* The laws of a node are stated in terms of what its parts do (DoAt), with  *)
(* sets and quantifiers instead of the loops in Readers.                     *)
EXTENDS Readers, Json

CONSTANTS Leafs, Unary, Binary, MaxNodes, MaxText

VARIABLES N, stack

(* ---------------------------------------------------------- construction  *)
Marker == "::INVALID::"
Node(k) == [k |-> k, c |-> <<>>, s |-> <<>>, n |-> 0, f |-> "", w |-> "", q |-> "\"\""]
LeafNode(x) ==
  CASE x = "a"     -> [Node("lit") EXCEPT !.s = <<97>>, !.q = "\"a\""]
    [] x = "b"     -> [Node("lit") EXCEPT !.s = <<98>>, !.q = "\"b\""]
    [] x = "ab"    -> [Node("lit") EXCEPT !.s = <<97, 98>>, !.q = "\"ab\""]
    [] x = "empty" -> Node("lit")
    [] x = "ae"    -> [Node("rune") EXCEPT !.n = 228]
    [] x = "end"   -> Node("atend")
    [] x = "wrap"  -> [Node("wrap") EXCEPT !.n = 1, !.f = "read", !.w = "W"]
    [] x = "other" -> [Node("wrap") EXCEPT !.n = 1, !.f = "other", !.w = "O"]
    [] x = "inv"   -> [Node("invalid") EXCEPT !.q = Marker, !.w = "I"]
    [] x = "jend"  -> [Node("jend") EXCEPT !.n = 1, !.w = "J"]
Id == Len(N) + 1
Top(k) == stack[Len(stack) - k]
Made(k, cs) ==
  LET x == [Node(k) EXCEPT !.c = cs] IN
  CASE k = "times" -> [x EXCEPT !.n = 2]
    [] k = "map"   -> [x EXCEPT !.n = Id]
    [] k \in {"pick", "mon", "named"} -> [x EXCEPT !.w = k \o ToString(Id)]
    [] k = "jbeg"  -> [x EXCEPT !.n = 1, !.w = "J"]
    [] OTHER -> x
Kinds(k) == {i \in 1..Len(N) : N[i].k = k}
(* The end of a Janus pair exists only after its begin was made.             *)
RECURSIVE HasEnd(_)
HasEnd(i) == N[i].k = "jend" \/ \E j \in 1..Len(N[i].c) : HasEnd(N[i].c[j])

Init == N = <<>> /\ stack = <<>>
AddLeaf == \E x \in Leafs : N' = Append(N, LeafNode(x)) /\ stack' = Append(stack, Id)
AddUnary == /\ stack # <<>>
            /\ \E k \in Unary : /\ k = "jbeg" => Kinds("jbeg") = {} /\ ~HasEnd(Top(0))
                                /\ N' = Append(N, Made(k, <<Top(0)>>))
            /\ stack' = [stack EXCEPT ![Len(stack)] = Id]
AddBinary == /\ Len(stack) > 1
             /\ \E k \in Binary : N' = Append(N, Made(k, <<Top(1), Top(0)>>))
             /\ stack' = Append(SubSeq(stack, 1, Len(stack)-2), Id)
Next == Len(N) < MaxNodes /\ (AddLeaf \/ AddUnary \/ AddBinary)
Spec == Init /\ [][Next]_<<N, stack>>

(* parts that are waiting need nodes to join them                            *)
Fits == Len(N) + Len(stack) - 1 <= MaxNodes
Complete == Len(stack) = 1 /\ (Kinds("jend") # {} => Kinds("jbeg") # {})

(* ------------------------------------------------------------------ reads *)
RECURSIVE Words(_)
Words(n) == IF n = 0 THEN {<<>>} ELSE Words(n-1) \cup {x \o y : x \in Words(n-1), y \in {<<97>>, <<98>>}}
Texts == Words(MaxText) \cup {<<195, 164, 97>>, <<97, 255>>}
Root == Len(N)
nd == N[Root]
Start(p) == [State0(1) EXCEPT !.p = p]
R(i, t, p) == Read([t |-> t, tr |-> TRUE, N |-> N], i, Start(p))
Cases == {<<t, p>> \in Texts \X (0..(MaxText+1)) : p <= Len(t)}
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
RECURSIVE Bounds(_, _)
Bounds(t, p) == IF p >= Len(t) THEN {Len(t)} ELSE {p} \cup Bounds(t, p + DecodeAt(t, p)[2])
Hits(i, t, p) == {q \in Bounds(t, p) : R(i, t, q).ok}
Pos(i, t, p) == LET r == R(i, t, p) IN IF r.ok THEN r.p ELSE -1

LawC10 == Complete => \A x \in Cases : LET r == R(Root, x[1], x[2]) IN
            ~r.ok => r.p = x[2] /\ r.ip = <<>> /\ r.e # NoErr

(* sequence, choice and repetition                                           *)
LawC11 == Complete => \A x \in Cases :
  LET t == x[1]
      p == x[2]
      r == Pos(Root, t, p)
      a(q) == Pos(nd.c[1], t, q)
      b(q) == Pos(nd.c[2], t, q)
  IN /\ r \in -1..Len(t)
     (* only the text from the start position matters                        *)
     /\ LET s == Pos(Root, SubSeq(t, p+1, Len(t)), 0) IN r = (IF s = -1 THEN -1 ELSE p + s)
     /\ CASE nd.k = "seq" -> r = (IF a(p) = -1 THEN -1 ELSE b(a(p)))
          [] nd.k = "any" -> r = (IF a(p) = -1 THEN b(p) ELSE a(p))
          [] nd.k = "opt" -> r = (IF a(p) = -1 THEN p ELSE a(p))
          [] nd.k = "times" -> r = (IF a(p) = -1 THEN -1 ELSE a(a(p)))
          [] nd.k = "zom" -> /\ r >= p
                             /\ a(r) \in {-1, r}                      \* nothing more can be read
                             /\ r = (IF a(p) \in {-1, p} THEN p ELSE Pos(Root, t, a(p)))
          [] nd.k = "many" -> /\ (r = -1) = (a(p) \in {-1, p})
                              /\ r # -1 => a(r) \in {-1, r} /\ (a(a(p)) \in {-1, a(p)} => r = a(p))
          [] nd.k = "skipseq" -> r = (LET s == a(p)
                                          m == IF s = -1 THEN -1 ELSE b(s)
                                      IN IF m = -1 THEN -1 ELSE a(m))
          [] OTHER -> TRUE

(* lookahead and search                                                      *)
LawC12 == Complete => \A x \in Cases :
  LET t == x[1]
      p == x[2]
      r == Pos(Root, t, p)
      a(q) == Pos(nd.c[1], t, q)
      hits(i) == Hits(i, t, p)
      cut(q) == Pos(nd.c[1], SubSeq(t, 1, q), p)
  IN CASE nd.k = "at" -> r = (IF a(p) = -1 THEN -1 ELSE p)
       [] nd.k = "atend" -> r = (IF p = Len(t) THEN p ELSE -1)
       [] nd.k = "not" -> r = (IF a(p) # -1 \/ p = Len(t) THEN -1 ELSE Min(Bounds(t, p) \ {p}))
       [] nd.k = "to" -> r = (IF hits(nd.c[1]) = {} THEN -1 ELSE Min(hits(nd.c[1])))
       [] nd.k = "past" -> r = (IF hits(nd.c[1]) = {} THEN -1 ELSE a(Min(hits(nd.c[1]))))
       [] nd.k \in {"body", "bodytail"} ->
            LET h == hits(nd.c[2])
                m == Min(h)
            IN r = (IF h = {} THEN -1
                    ELSE IF cut(m) # m THEN -1
                    ELSE IF nd.k = "body" THEN m ELSE Pos(nd.c[2], t, m))
       [] OTHER -> TRUE

(* errors                                                                    *)
Behind(e) == IF e.k = 1 THEN e.p ELSE -1
LawC14 == Complete => \A x \in Cases :
  LET t == x[1]
      p == x[2]
      r == R(Root, t, p)
      a == R(nd.c[1], t, p)
      b == R(nd.c[2], t, p)
  IN ~r.ok =>
     /\ r.e.k = 1 => r.e.p \in p..Len(t)
     /\ CASE nd.k = "any" -> LET m == Max({Behind(a.e), Behind(b.e)}) IN
                               /\ Behind(r.e) = m
                               /\ r.e = (IF Behind(b.e) = m THEN b.e ELSE a.e)
          [] nd.k = "seq" -> r.e = (IF ~a.ok THEN a.e ELSE R(nd.c[2], t, a.p).e)
          [] nd.k \in {"many", "to", "past", "body", "bodytail", "lit", "atend"} -> r.e = ErrAt(p, Root, "own")
          [] OTHER -> TRUE

(* picks: what they are, told from the read of the parts                     *)
Inside(ss, p, q) == \A i \in 1..Len(ss) : p <= ss[i].a /\ ss[i].a <= ss[i].b /\ ss[i].b <= q
LawC16 == Complete => \A x \in Cases :
  LET t == x[1]
      p == x[2]
      r == R(Root, t, p)
      a == R(nd.c[1], t, p)
      b == R(nd.c[2], t, a.p)
  IN IF ~r.ok THEN r.ip = <<>>
     ELSE /\ Inside(r.ip, p, r.p)
          /\ \A i, j \in 1..Len(r.ip) : i < j => r.ip[i].b <= r.ip[j].b
          /\ CASE nd.k = "pick" -> r.ip = Append(a.ip, [i |-> nd.w, a |-> p, b |-> r.p])
               [] nd.k = "seq" -> r.ip = a.ip \o b.ip
               [] nd.k = "any" -> r.ip = (IF a.ok THEN a ELSE R(nd.c[2], t, p)).ip
               [] nd.k \in {"at", "not", "to", "lit"} -> r.ip = <<>>
               [] OTHER -> TRUE
          (* the basket is right, but for the known findings                 *)
          /\ Kinds("bodytail") = {} /\ (\A i \in 1..Len(r.pk) : r.pk[i].a < r.pk[i].b) => r.pk = r.ip

(* observers                                                                 *)
Stripped == [i \in 1..Len(N) |-> IF N[i].k \in {"map", "pick", "mon", "named"} THEN [N[i] EXCEPT !.k = "seq"] ELSE N[i]]
LawC17 == Complete => \A x \in Cases :
  LET r == R(Root, x[1], x[2])
      s == Read([t |-> x[1], tr |-> TRUE, N |-> Stripped], Root, Start(x[2]))
  IN /\ r.ok = s.ok /\ r.p = s.p /\ r.e = s.e
     /\ nd.k = "map" => r.mp = (LET a == R(nd.c[1], x[1], x[2]) IN
                                IF a.ok THEN Append(a.mp, <<nd.n, x[2], r.p>>) ELSE a.mp)
     /\ \A i \in 1..Len(r.mp) : x[2] <= r.mp[i][2] /\ r.mp[i][2] <= r.mp[i][3] /\ r.mp[i][3] <= Len(x[1])

(* the log is a tree in pre-order: the first entry is on level 1, every      *)
(* other at most one below the one before it, and lies inside of its parent  *)
LawC18 == Complete => \A x \in Cases :
  LET r == R(Root, x[1], x[2])
      Up(i) == Max({j \in 1..(i-1) : r.lg[j].lv = r.lg[i].lv - 1})
  IN /\ r.lv = 0
     /\ \A i \in 1..Len(r.lg) :
          /\ r.lg[i].lv >= 1 /\ r.lg[i].at >= x[2] /\ r.lg[i].to >= r.lg[i].at
          /\ r.lg[i].e # NoErr => r.lg[i].to = r.lg[i].at
          /\ r.lg[i].lv > 1 => i > 1 /\ r.lg[i].lv <= r.lg[i-1].lv + 1 /\ r.lg[Up(i)].at <= r.lg[i].at
     /\ nd.k = "mon" => /\ r.lg[1] = [at |-> x[2], i |-> nd.w, lv |-> 1, to |-> r.p, e |-> r.e]
                        /\ Len(r.lg) = 1 + Len(R(nd.c[1], x[1], x[2]).lg)

(* a Janus end reads what the begin read                                     *)
LawC15 == Complete => \A x \in Cases :
  LET r == R(Root, x[1], x[2]) IN
  /\ r.ok /\ nd.k = "jbeg" => r.cl[1] = SubSeq(x[1], x[2]+1, r.p)
  /\ r.ok /\ nd.k = "seq" /\ N[nd.c[1]].k = "jbeg" /\ N[nd.c[2]].k = "jend" =>
       \E q \in x[2]..r.p : /\ SubSeq(x[1], x[2]+1, q) = SubSeq(x[1], q+1, r.p)
                            /\ Pos(nd.c[1], x[1], x[2]) = q

(* descriptions: the parts are seen in order, an invalid reader is seen, if  *)
(* no name hides it                                                          *)
Seen(part, whole, from) == {k \in from..(Len(whole) - Len(part) + 1) : SubSeq(whole, k, k + Len(part) - 1) = part}
LawC24 == Complete =>
  LET w == What(N, Root)
      part(i) == What(N, nd.c[i])
  IN /\ (Seen(Marker, w, 1) # {}) = ShowsInvalid(N, Root)
     /\ nd.k \notin {"named", "wrap"} =>
          /\ Len(nd.c) >= 1 => Seen(part(1), w, 1) # {}
          /\ Len(nd.c) = 2 => Seen(part(2), w, Min(Seen(part(1), w, 1)) + Len(part(1))) # {}

LawC13 == Complete => \A x \in Cases : R(Root, x[1], x[2]).p \in x[2]..Len(x[1])

(* ------------------------------------------------------------------ cases *)
Emit == Complete => PrintT(ToJson([n |-> N, cells |-> [k \in 1..Cardinality(Kinds("jbeg")) |-> Min(Kinds("jbeg"))]]))
=============================================================================
