------------------------------- MODULE Client -------------------------------
(* What a user of a client (binding) gets, depending on the behaviour of all configured servers.

   The client owns four lists of servers: provers, execution nodes (rpc), beacon nodes (bea) and checkpoint sources (chk).  For each request of the
   library the servers of its list are asked in order; those that do not answer are skipped, those whose answer is unusable are excluded and the
   next one is asked.  A proof comes from the provers, and if none of them answers, from the library itself, with data of the rpc and bea lists.
   Then it is verified, and for that a client without trust needs a checkpoint (configured or from chk) and light client data.
   Whatever happens: the call ends, with the truth or with an error. *)
EXTENDS Product, Json
CONSTANTS D, K, Bases0
Skips == {"down", "e500", "e404"}                              \* no answer
RpcSkips == Skips \cup {"retry"}                               \* (also: an answer the library does not want)
RECURSIVE First(_, _)
First(l, S) == IF l = <<>> THEN "none" ELSE IF Head(l) \in S THEN First(Tail(l), S) ELSE Head(l)
Provable == {"bal", "txhash", "blknum", "receipt", "logs", "bn"}
NeedsRpc(m) == m \notin {"bn"}
P(s) == First(s.prov, Skips)
Local(s) == s.prov = <<>> \/ P(s) = "none"                     \* the library creates the proof itself
Rpc(s) == First(s.rpc, RpcSkips)  Bea(s) == First(s.bea, Skips)  Chk(s) == First(s.chk, Skips)
VBea(s) == IF s.prov # <<>> THEN P(s) ELSE Bea(s)              \* light client data comes from the provers, if configured
(* what the call depends on *)
Needs(s) == (IF Local(s) THEN {Rpc(s), Bea(s)} ELSE {P(s)}) \cup (IF s.client = "have" THEN {} ELSE {VBea(s)}) \cup (IF s.client = "none" THEN {Chk(s)} ELSE {})
Proofs(s) == IF s.client = "badcp" THEN "no"                    \* the user trusts a block that is not part of the chain
             ELSE IF Needs(s) = {"ok"} THEN "yes"
             ELSE IF Local(s) /\ (Bea(s) = "none" \/ (Rpc(s) = "none" /\ NeedsRpc(s.m))) THEN "no"
             ELSE IF s.client = "none" /\ Chk(s) = "none" THEN "no"
             ELSE "any"
GasSkips == Skips \cup {"retry", "html", "empty"}
Verdict(s) == CASE s.m \in Provable -> Proofs(s)
                [] s.m = "gas" -> (CASE First(s.rpc, GasSkips) = "ok" -> "yes" [] First(s.rpc, GasSkips) = "none" -> "no" [] OTHER -> "any")   \* not verifiable: what the first node says
                [] s.m = "chainId" -> "yes"                    \* local
                [] OTHER -> "no"
(* the kinds of servers that may be asked at all *)
May(s) == CASE s.m \in Provable \cup {"sub"} -> (IF s.prov = <<>> THEN {} ELSE {"prov"}) \cup (IF Local(s) THEN {"rpc", "bea"} ELSE {"rpc"}) \cup (IF s.client = "none" THEN {"chk"} ELSE {}) \cup (IF s.prov = <<>> THEN {"bea"} ELSE {})
            [] s.m = "gas" -> {"rpc"}
            [] OTHER -> {}
Init == Start(Bases0)
Next == Deviate(D, K)
Sound(s) == Verdict(s) = "yes" => \A l \in {"bad", "none"} : l \notin Needs(s) \/ s.m \notin Provable
(* one more working server at the end of a list never makes a call fail *)
Grows(s) == Proofs(s) = "yes" => Proofs([s EXCEPT !.rpc = Append(@, "ok")]) = "yes" /\ Proofs([s EXCEPT !.bea = Append(@, "ok")]) = "yes" /\ Proofs([s EXCEPT !.chk = Append(@, "ok")]) = "yes"
Inv == Sound(sc) /\ Grows(sc) /\ PrintT("@@" \o ToJson([s |-> sc, ok |-> Verdict(sc), may |-> May(sc)]))
=============================================================================
