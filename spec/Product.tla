------------------------------ MODULE Product ------------------------------
(* Scenarios that deviate from an honest one in at most k dimensions: every step changes one more dimension.
   The verdict of a scenario is a function of the scenario (and of the stored keys) alone: the replay also runs scenarios after other
   messages - the honest one next to it, itself, others - in the same process and expects the same verdict. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES sc,   \* the scenario
          dv    \* the dimensions changed so far
Start(S) == sc \in S /\ dv = {}
Deviate(D, k) == /\ Cardinality(dv) < k
                 /\ \E d \in DOMAIN D \ dv : \E v \in D[d] : sc[d] # v /\ sc' = [sc EXCEPT ![d] = v] /\ dv' = dv \cup {d}
=============================================================================
