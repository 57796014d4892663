------------------------------ MODULE TxCache ------------------------------
(* The cache from transaction hashes to their place (block, index) of a prover.

   An ideal map with whole-block, first-in-first-out eviction: groups is the sequence of blocks in the order in which they were first added,
   each with the hashes that were new then.  A lookup yields the last place stored for this hash, or nothing if it was never stored or its
   group was evicted; the size is the number of hashes; nothing else is ever lost, and every operation ends.
   Hashes have a home position in the (fixed size) table of the implementation, so that colliding, adjacent and wrapping clusters occur. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Hashes, Blocks, Idx, Maxes, Reserves, Cap, MaxLen, WithReset
VARIABLES hist, place, groups, max
vars == <<hist, place, groups, max>>
Size == Cardinality(DOMAIN place)
Keys(g) == UNION {g[j].h : j \in DOMAIN g}
Drop(f, S) == [x \in DOMAIN f \ S |-> f[x]]
(* groups left, places left when n more must fit *)
RECURSIVE Evict(_, _, _, _)
Evict(g, p, m, n) == IF g = <<>> \/ Cardinality(DOMAIN p) + n <= m THEN <<g, p>> ELSE Evict(Tail(g), Drop(p, Head(g).h), m, n)
Lim(m) == IF m = 0 THEN 1 ELSE IF m > Cap THEN Cap ELSE m
Log(o, a, b, c, d) == hist' = Append(hist, [o |-> o, a |-> a, b |-> b, c |-> c, f |-> d[1], fb |-> d[2], fi |-> d[3], n |-> Cardinality(DOMAIN place')])
None == <<0, 0, 0>>
Set(h, b, x) ==
  LET e == IF Size >= max THEN Evict(groups, place, max, 1) ELSE <<groups, place>>
      g == e[1] p == e[2]
      new == h \notin DOMAIN p
      g2 == IF ~new THEN g ELSE IF g # <<>> /\ g[Len(g)].b = b THEN [g EXCEPT ![Len(g)].h = @ \cup {h}] ELSE Append(g, [b |-> b, h |-> {h}])
  IN /\ groups' = g2 /\ place' = [y \in DOMAIN p \cup {h} |-> IF y = h THEN <<b, x>> ELSE p[y]] /\ UNCHANGED max /\ Log("s", h, b, x, None)
Get(h) == /\ UNCHANGED <<groups, place, max>>
          /\ Log("g", h, 0, 0, IF h \in DOMAIN place THEN <<1, place[h][1], place[h][2]>> ELSE None)
Reserve(n) == LET e == Evict(groups, place, max, n) IN groups' = e[1] /\ place' = e[2] /\ UNCHANGED max /\ Log("r", n, 0, 0, None)
SetMax(m) == LET e == Evict(groups, place, Lim(m), 0) IN groups' = e[1] /\ place' = e[2] /\ max' = Lim(m) /\ Log("m", m, 0, 0, None)
Reset == groups' = <<>> /\ place' = <<>> /\ UNCHANGED max /\ Log("x", 0, 0, 0, None)
Init == hist = <<>> /\ place = <<>> /\ groups = <<>> /\ max = 10000
Next == /\ Len(hist) < MaxLen
        /\ \/ \E h \in Hashes, b \in Blocks, x \in Idx : Set(h, b, x)
           \/ \E h \in Hashes : Len(hist) > 1 /\ Get(h)
           \/ \E n \in Reserves : Reserve(n)
           \/ \E m \in Maxes : SetMax(m)
           \/ WithReset /\ Len(hist) > 2 /\ Reset
Inv == /\ Keys(groups) = DOMAIN place                                   \* nothing is lost, nothing is kept without a group
       /\ \A j, k \in DOMAIN groups : j # k => groups[j].h \cap groups[k].h = {}
       /\ (Size <= max)
       /\ (Len(hist) < MaxLen \/ PrintT("@@" \o ToJson([h |-> hist])))
=============================================================================
