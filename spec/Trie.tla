-------------------------------- MODULE Trie --------------------------------
(* Merkle Patricia tries over nibble sequences.

   Nodes are terms; a reference to a child is the child's term itself (ideal hashing: two references are equal iff the
   nodes are).  A child whose RLP is shorter than 32 bytes is embedded in its parent and therefore never appears as a node
   of a proof; the RLP sizes are computed here. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Keys,       \* sequences of nibbles (even length)
          Vals,       \* kinds of values
          Queries,    \* keys to be proven
          MaxKeys, MaxPuts, Devs

(* values are named by their kind; Len gives the size of the RLP item. "r" is a 32 byte value that is the hash of a node of the adversary *)
ItemSize(v) == CASE v = "s" -> 1 [] v = "t" -> 2 [] v = "m" -> 21 [] v = "b" -> 41 [] v = "r" -> 33 [] v = "l" -> 302 [] v = "n26" -> 27 [] v = "n27" -> 28 [] v = "n28" -> 29 [] v = "n29" -> 30 [] v = "n30" -> 31 [] v = "n31" -> 32 [] v = "" -> 1
None == [t |-> "none"]
Leaf(p, v) == [t |-> "leaf", p |-> p, v |-> v]
Ext(p, c) == [t |-> "ext", p |-> p, c |-> c]
Branch(c, v) == [t |-> "branch", c |-> c, v |-> v]
NoKids == [i \in 0..15 |-> None]

PathSize(p) == LET n == Len(p) \div 2 + 1 IN IF n = 1 THEN 1 ELSE 1 + n
ListSize(n) == IF n < 56 THEN n + 1 ELSE IF n < 256 THEN n + 2 ELSE n + 3
RECURSIVE Size(_)
RefSize(n) == IF n = None THEN 1 ELSE LET z == Size(n) IN IF z < 32 THEN z ELSE 33
RECURSIVE SumRef(_, _)
SumRef(c, i) == IF i > 15 THEN 0 ELSE RefSize(c[i]) + SumRef(c, i + 1)
Size(n) == CASE n.t = "leaf" -> ListSize(PathSize(n.p) + ItemSize(n.v))
             [] n.t = "ext" -> ListSize(PathSize(n.p) + RefSize(n.c))
             [] OTHER -> ListSize(SumRef(n.c, 0) + ItemSize(n.v))
Embedded(n) == Size(n) < 32

Common(a, b) == LET m == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
                    S == {k \in 0..m : \A i \in 1..k : a[i] = b[i]} IN CHOOSE k \in S : \A j \in S : j <= k
From(p, k) == SubSeq(p, k, Len(p))
IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

(* ---- the canonical trie of a map (set of <<path, value>> pairs) *)
RECURSIVE Build(_)
Build(S) == IF S = {} THEN None ELSE
  LET x == CHOOSE x \in S : TRUE
      K == {k \in 0..Len(x[1]) : \A y \in S : k <= Len(y[1]) /\ SubSeq(y[1], 1, k) = SubSeq(x[1], 1, k)}
      k == CHOOSE k \in K : \A j \in K : j <= k
  IN IF Cardinality(S) = 1 THEN Leaf(x[1], x[2])
     ELSE IF k > 0 THEN Ext(SubSeq(x[1], 1, k), Build({<<From(y[1], k + 1), y[2]>> : y \in S}))
     ELSE Branch([n \in 0..15 |-> Build({<<From(y[1], 2), y[2]>> : y \in {z \in S : Len(z[1]) > 0 /\ z[1][1] = n}})],
                 IF \E z \in S : z[1] = <<>> THEN (CHOOSE z \in S : z[1] = <<>>)[2] ELSE "")

(* ---- inserting one value *)
AtBranch(n, p, v) == IF p = <<>> THEN [n EXCEPT !.v = v] ELSE n
WithPath(p, c) == IF p = <<>> THEN c ELSE Ext(p, c)
RECURSIVE Insert(_, _, _)
Insert(n, p, v) ==
  CASE n.t = "none" -> Leaf(p, v)
    [] n.t = "branch" -> IF p = <<>> THEN [n EXCEPT !.v = v] ELSE [n EXCEPT !.c[p[1]] = Insert(n.c[p[1]], From(p, 2), v)]
    [] n.t = "ext" /\ IsPrefix(n.p, p) -> [n EXCEPT !.c = Insert(n.c, From(p, Len(n.p) + 1), v)]
    [] n.t = "leaf" /\ n.p = p -> Leaf(p, v)
    [] OTHER ->
         LET k == Common(n.p, p)
             rest == From(n.p, k + 1)
             old == IF n.t = "leaf" THEN (IF rest = <<>> THEN Branch(NoKids, n.v) ELSE Branch([NoKids EXCEPT ![rest[1]] = Leaf(From(rest, 2), n.v)], ""))
                    ELSE Branch([NoKids EXCEPT ![rest[1]] = WithPath(From(rest, 2), n.c)], "")
         IN WithPath(SubSeq(p, 1, k), Insert(old, From(p, k + 1), v))

(* ---- the proof of a key: the nodes on its path that are not embedded *)
RECURSIVE Nodes(_, _)
Nodes(n, p) ==
  LET rest == CASE n.t = "branch" /\ p # <<>> /\ n.c[p[1]] # None -> Nodes(n.c[p[1]], From(p, 2))
                [] n.t = "ext" /\ IsPrefix(n.p, p) -> Nodes(n.c, From(p, Len(n.p) + 1))
                [] OTHER -> <<>>
  IN (IF Embedded(n) THEN <<>> ELSE <<n>>) \o rest
Proof(root, p) == LET l == Nodes(root, p) IN IF root = None THEN <<>> ELSE IF Embedded(root) THEN <<root>> \o l ELSE l

(* ---- verifying: walks from the root node; "absent" is the proof that there is no value *)
RECURSIVE Walk(_, _, _)
Walk(n, p, l) ==    \* n: current node, l: nodes of the proof not yet used
  LET go(c, q) == IF c = None THEN "absent" ELSE IF Embedded(c) THEN Walk(c, q, l) ELSE IF l # <<>> /\ l[1] = c THEN Walk(c, q, Tail(l)) ELSE "invalid"
  IN CASE n.t = "branch" -> IF p = <<>> THEN (IF n.v = "" THEN "absent" ELSE n.v) ELSE go(n.c[p[1]], From(p, 2))
       [] n.t = "ext" -> IF IsPrefix(n.p, p) THEN go(n.c, From(p, Len(n.p) + 1)) ELSE "absent"
       [] n.t = "leaf" -> IF n.p = p THEN n.v ELSE "absent"
       [] OTHER -> "invalid"
Verify(l, p) == IF l = <<>> THEN "invalid" ELSE Walk(l[1], p, Tail(l))

Truth(S, p) == IF \E y \in S : y[1] = p THEN (CHOOSE y \in S : y[1] = p)[2] ELSE "absent"

(* ---- the adversary: it may send any list of nodes it can build *)
Evil(p) == Leaf(p, "m")                      \* a node of the adversary: claims that p has the value "m"
Bump(v) == IF v = "b" THEN "m" ELSE "b"
RECURSIVE Forge(_)
Forge(n) == CASE n.t = "leaf" -> [n EXCEPT !.v = Bump(n.v)]
              [] n.t = "branch" -> IF n.v # "" THEN [n EXCEPT !.v = Bump(n.v)] ELSE [n EXCEPT !.c[IF n.c[15] = None THEN 15 ELSE 0] = Leaf(<<1>>, "b")]
              [] OTHER -> [n EXCEPT !.p[1] = (n.p[1] + 1) % 16]
Pop(l, i) == SubSeq(l, 1, i - 1) \o SubSeq(l, i + 1, Len(l))
Mutate(d, S, root, p, q) ==   \* q: another key
  LET l == Proof(root, p) IN
  CASE d = "none" -> l
    [] d = "empty" -> <<>>
    [] d = "droplast" -> IF l = <<>> THEN l ELSE SubSeq(l, 1, Len(l) - 1)
    [] d = "dropfirst" -> IF l = <<>> THEN l ELSE Tail(l)
    [] d = "dropmid" -> IF Len(l) < 3 THEN l ELSE Pop(l, 2)
    [] d = "swap" -> IF Len(l) < 2 THEN l ELSE SubSeq(l, 1, Len(l) - 2) \o <<l[Len(l)], l[Len(l) - 1]>>
    [] d = "duplast" -> IF l = <<>> THEN l ELSE Append(l, l[Len(l)])
    [] d = "dupfirst" -> IF l = <<>> THEN l ELSE <<l[1]>> \o l
    [] d = "append" -> Append(l, Evil(p))
    [] d = "appendrest" -> Append(l, Evil(<<>>))
    [] d = "evilleaf" -> IF l = <<>> THEN l ELSE SubSeq(l, 1, Len(l) - 1) \o <<Evil(p)>>
    [] d = "forgelast" -> IF l = <<>> THEN l ELSE SubSeq(l, 1, Len(l) - 1) \o <<Forge(l[Len(l)])>>
    [] d = "forgemid" -> IF Len(l) < 3 THEN l ELSE [l EXCEPT ![2] = Forge(l[2])]
    [] d = "forgeroot" -> IF Len(l) < 2 THEN l ELSE [l EXCEPT ![1] = Forge(l[1])]
    [] d = "otherkey" -> Proof(root, q)
    [] d = "othertail" -> LET o == Proof(root, q) IN IF Len(o) < 2 \/ Len(l) < 2 THEN l ELSE SubSeq(l, 1, Len(l) - 1) \o <<o[Len(o)]>>
    [] d = "otherplus" -> l \o Proof(root, q)
    [] d = "othertrie" -> Proof(Build({<<y[1], Bump(y[2])>> : y \in S}), p)
    [] d = "removed" -> Proof(Build({y \in S : y[1] # p}), p)
Honest(d, l, root, p) == l = Proof(root, p)

(* ==== specification A: every set of keys, every query, every manipulated proof *)
VARIABLE x
KeySets == {S \in SUBSET Keys : S # {} /\ Cardinality(S) <= MaxKeys}
Maps(K) == {{<<k, v>> : k \in K} : v \in Vals} \cup (IF Cardinality(Vals) > 1 THEN {{<<k, IF Len(k) % 4 = 0 THEN v ELSE w>> : k \in K} : v \in Vals, w \in Vals} ELSE {})
InitV == x \in UNION {{[s |-> S, q |-> q, d |-> d] : S \in Maps(K), q \in Queries, d \in Devs} : K \in KeySets}
NextV == UNCHANGED x
List(y) == Mutate(y.d, y.s, Build(y.s), y.q, (CHOOSE z \in y.s : z[1] # y.q \/ Cardinality(y.s) = 1)[1])
InvV == LET root == Build(x.s)
            l == List(x)
            r == Verify(l, x.q)
        IN /\ (l # <<>> /\ l[1] = root /\ r # "invalid") => r = Truth(x.s, x.q)
           /\ l = Proof(root, x.q) => r = Truth(x.s, x.q)
           /\ PrintT("@@" \o ToJson([root |-> root, l |-> l, q |-> x.q, d |-> x.d, t |-> Truth(x.s, x.q), ok |-> (IF l = Proof(root, x.q) THEN "honest" ELSE "any")]))

(* ==== specification B: histories of insertions *)
VARIABLES h
InitB == h = <<>> /\ x = [n |-> None, m |-> [k \in Keys |-> ""]]
Put(k, v) == /\ Len(h) < MaxPuts /\ h' = Append(h, <<k, v>>) /\ x' = [n |-> Insert(x.n, k, v), m |-> [x.m EXCEPT ![k] = v]]
NextB == \E k \in Keys, v \in Vals : Put(k, v)
MapOf(m) == {<<k, m[k]>> : k \in {k \in Keys : m[k] # ""}}
InvB == /\ x.n = Build(MapOf(x.m))
        /\ \A q \in Queries : x.n # None => Verify(Proof(x.n, q), q) = Truth(MapOf(x.m), q)
        /\ h # <<>> => PrintT("@@" \o ToJson([h |-> h, root |-> x.n, ok |-> TRUE]))
InitVh == InitV /\ h = <<>>
NextVh == NextV /\ UNCHANGED h
=============================================================================
