------------------------------- MODULE Async -------------------------------
(* The life of a data request between prover (or verifier) and host.

   The prover never waits: it adds requests and returns "pending". The host answers the pending requests in any order and
   in any portions and calls again. For one class of requests every node has its own behaviour:
     ok     answers correctly          retry  answers something after which another node has to be asked
     fatal  answers with an error      down   can not be reached (the host goes on with the next node)
   After an unusable answer the prover marks the node as excluded and the request is pending again. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N,          \* number of nodes
          Methods,    \* method -> classes of requests it needs
          Words,      \* schedules: which of the pending requests are answered before the next call (repeated): a all, r all in reverse order, f the first, l the last
          RetryKinds, FatalKinds
Nodes == 0 .. N - 1
Beh == {"ok", "retry", "fatal", "down"}
VARIABLES m, cls, b, word, rk, fk, \* the scenario
          excl, st, asked
vars == <<m, cls, b, word, rk, fk, excl, st, asked>>
Init == /\ m \in DOMAIN Methods /\ cls \in Methods[m] /\ b \in [Nodes -> Beh] /\ word \in Words
        /\ rk \in RetryKinds /\ fk \in FatalKinds
        /\ excl = {} /\ st = "pending" /\ asked = <<>>
Usable == {n \in Nodes : n \notin excl /\ b[n] # "down"}
First == CHOOSE n \in Usable : \A k \in Usable : n <= k
Host == /\ st = "pending"
        /\ IF Usable = {} THEN st' = "failed" /\ UNCHANGED <<excl, asked>>
           ELSE /\ asked' = Append(asked, First)
                /\ CASE b[First] = "ok" -> st' = "answered" /\ UNCHANGED excl
                     [] b[First] = "retry" -> st' = "pending" /\ excl' = excl \cup {First}
                     [] OTHER -> st' = "failed" /\ UNCHANGED excl
        /\ UNCHANGED <<m, cls, b, word, rk, fk>>
Next == Host
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == st # "pending"
(* no node is asked twice, so every request ends *)
NoRepeat == \A i, j \in 1 .. Len(asked) : i # j => asked[i] # asked[j]
Ends == <>Done
(* the outcome is decided by the first reachable node that does not ask for a retry *)
Decider == {n \in Nodes : b[n] \in {"ok", "fatal"} /\ \A k \in Nodes : k < n => b[k] \in {"retry", "down"}}
Outcome == Done => (st = "answered" <=> \E n \in Decider : b[n] = "ok")
Inv == /\ NoRepeat /\ Outcome
       /\ Done => PrintT("@@" \o ToJson([s |-> [m |-> m, fcl |-> cls, b |-> b, word |-> word, rk |-> rk, fk |-> fk], ok |-> IF st = "answered" THEN "yes" ELSE "no", asked |-> asked]))
=============================================================================
