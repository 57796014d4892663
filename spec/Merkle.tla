------------------------------- MODULE Merkle -------------------------------
(* Merkle multi proofs: a tree of depth Dep over distinct leaves, a sequence of claims (generalized index, value) and a list of
   witnesses. Hashing is ideal: a node is the pair of its children.

   The verifier combines claims and witnesses to a root. If this is the root of the tree, every claim has to be true. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Dep, Sizes, K, Orders
VARIABLES cl,    \* claims: sequence of [g, v]
          wit,   \* the witnesses
          n      \* deviations so far
RECURSIVE Pow2(_), Node(_), Up(_)
Pow2(d) == IF d = 0 THEN 1 ELSE 2 * Pow2(d - 1)
All == 1 .. Pow2(Dep + 1) - 1
(* the value of node g of the tree: a leaf is its own index, an inner node the pair *)
Node(g) == IF g >= Pow2(Dep) THEN <<g>> ELSE <<Node(2 * g), Node(2 * g + 1)>>
Sibling(g) == IF g % 2 = 0 THEN g + 1 ELSE g - 1
Up(g) == IF g <= 1 THEN {} ELSE {g} \cup Up(g \div 2)          \* g and its ancestors below the root
Antichain(G) == \A a, c \in G : a # c => a \notin Up(c)
(* the helper indices of the consensus specification: siblings of all nodes on the paths that are not on a path themselves *)
Helpers(G) == LET path == UNION {Up(g) : g \in G} IN {Sibling(g) : g \in path} \ path
SortDesc(S) == CHOOSE q \in [1 .. Cardinality(S) -> S] : \A i, j \in DOMAIN q : i < j => q[i] > q[j]
Perm(S) == {q \in [1 .. Cardinality(S) -> S] : \A i, j \in DOMAIN q : i # j => q[i] # q[j]}
Sorted(S) == {SortDesc(S)}
Sets == {G \in SUBSET (All \ {1}) : Cardinality(G) \in Sizes /\ Antichain(G)}
Gs(c) == [i \in DOMAIN c |-> c[i].g]
G(c) == {c[i].g : i \in DOMAIN c}
(* ---- the verification: the root that claims and witnesses amount to. "bad" if they do not fit together *)
First(c, g) == c[CHOOSE i \in DOMAIN c : c[i].g = g /\ \A j \in DOMAIN c : c[j].g = g => i <= j].v
RECURSIVE Val(_, _, _)
Val(c, w, g) == LET h == SortDesc(Helpers(G(c))) IN
                IF g \in G(c) THEN First(c, g)
                ELSE IF \E i \in DOMAIN h : h[i] = g THEN w[CHOOSE i \in DOMAIN h : h[i] = g]
                ELSE <<Val(c, w, 2 * g), Val(c, w, 2 * g + 1)>>
Fits(c, w) == Cardinality(Helpers(G(c))) = Len(w)
Unique(c) == Cardinality(G(c)) = Len(c)
Result(c, w) == Val(c, w, 1)
Accept(c, w) == Fits(c, w) /\ Result(c, w) = Node(1)
True(c) == \A i \in DOMAIN c : c[i].v = Node(c[i].g)
(* ---- an honest proof and what a prover may do to it *)
Init == \E S \in Sets : \E q \in (IF Orders = "all" THEN Perm(S) ELSE Sorted(S)) :
          /\ cl = [i \in DOMAIN q |-> [g |-> q[i], v |-> Node(q[i])]]
          /\ wit = [i \in 1 .. Cardinality(Helpers(S)) |-> Node(SortDesc(Helpers(S))[i])] /\ n = 0
Other(v) == {Node(1), <<0>>, Node(2), Node(3)} \ {v}
Next == /\ n < K /\ n' = n + 1
        /\ \/ \E i \in DOMAIN cl : \E v \in Other(cl[i].v) : cl' = [cl EXCEPT ![i].v = v] /\ UNCHANGED wit
           \/ \E i \in DOMAIN wit : \E v \in Other(wit[i]) : wit' = [wit EXCEPT ![i] = v] /\ UNCHANGED cl
           \/ \E i, j \in DOMAIN wit : i < j /\ wit' = [wit EXCEPT ![i] = wit[j], ![j] = wit[i]] /\ UNCHANGED cl
           \/ \E i, j \in DOMAIN cl : i < j /\ cl' = [cl EXCEPT ![i].v = cl[j].v, ![j].v = cl[i].v] /\ UNCHANGED wit
           \/ wit # <<>> /\ wit' = SubSeq(wit, 1, Len(wit) - 1) /\ UNCHANGED cl
           \/ wit' = Append(wit, <<0>>) /\ UNCHANGED cl
           \/ \E i \in DOMAIN cl : \E g \in {Sibling(cl[i].g), cl[i].g \div 2, 2 * cl[i].g} \ {0, 1} : cl' = [cl EXCEPT ![i].g = g] /\ UNCHANGED wit
Usable == Antichain(G(cl)) /\ Unique(cl)
Inv == Usable => /\ Accept(cl, wit) => True(cl)
                 /\ n = 0 => Accept(cl, wit)
                 /\ PrintT("@@" \o ToJson([c |-> cl, w |-> wit, n |-> n, fits |-> Fits(cl, wit), r |-> IF Fits(cl, wit) THEN Result(cl, wit) ELSE <<0>>, ok |-> Accept(cl, wit)]))
=============================================================================
