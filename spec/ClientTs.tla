----------------------------- MODULE ClientTs -----------------------------
(* What a user of the TypeScript client gets, depending on the behaviour of all configured servers and the proof strategy.

   As in Client.tla, servers that do not answer are skipped and the next one of the list is asked.  Here a proof comes from the provers, if any
   is configured, otherwise from the library itself with data of the rpc and bea lists.  Light client data comes from bea and then prov, a checkpoint
   from chk, then bea, then prov.  The strategies differ in what they do with methods that can not be verified, and WarningWithFallback returns
   what an execution node says, but not without a warning if this was not verified.
   The field n says how often the same call is made: once, twice in a row or twice at the same time; each of them is judged.
   Whatever happens: the call ends, with the truth or with an error (or a warning, for that strategy). *)
EXTENDS Product, Json
CONSTANTS D, K, Bases0
Skips == {"down", "e500", "e404"}
RpcSkips == Skips \cup {"retry"}
RECURSIVE First(_, _)
First(l, S) == IF l = <<>> THEN "none" ELSE IF Head(l) \in S THEN First(Tail(l), S) ELSE Head(l)
Provable == {"bal", "txhash", "blknum", "receipt", "logs", "bn"}
P(s) == First(s.prov, Skips)
Local(s) == s.prov = <<>>
Rpc(s) == First(s.rpc, RpcSkips)  Bea(s) == First(s.bea \o s.prov, Skips)  Chk(s) == First(s.chk \o s.bea \o s.prov, Skips)
Needs(s) == (IF Local(s) THEN {Rpc(s), Bea(s)} ELSE {P(s)}) \cup (IF s.client = "have" THEN {} ELSE {Bea(s)}) \cup (IF s.client = "none" THEN {Chk(s)} ELSE {})
Proofs(s) == IF s.client = "badcp" THEN "no"
             ELSE IF Needs(s) = {"ok"} THEN "yes"
             ELSE IF Local(s) /\ (Bea(s) = "none" \/ (Rpc(s) = "none" /\ s.m # "bn")) THEN "no"
             ELSE IF ~Local(s) /\ P(s) = "none" THEN "no"
             ELSE IF s.client = "none" /\ Chk(s) = "none" THEN "no"
             ELSE "any"
(* an answer of an execution node that is taken as it is: errors and answers that are not JSON are skipped *)
PlainSkips == Skips \cup {"retry", "html", "empty"}
Plain(s) == CASE First(s.rpc, PlainSkips) = "ok" -> "yes" [] First(s.rpc, PlainSkips) = "none" -> "no" [] OTHER -> "any"
Warns(s) == s.api = "request" /\ s.strat = "WarningWithFallback"
Verdict(s) == CASE s.m \in Provable /\ Warns(s) -> (IF Plain(s) = "yes" THEN "yes" ELSE IF Plain(s) = "no" THEN "any" ELSE "any")
                [] s.m \in Provable -> Proofs(s)
                [] s.m = "gas" -> Plain(s)
                [] s.m \in {"chainId", "sha3"} -> "yes"
                [] s.api = "request" /\ s.strat # "VerifiedOnly" -> "any"      \* (unsupported methods are passed on to an execution node)
                [] OTHER -> "no"
(* "no": a warning would be wrong; "may": a warning is needed if the result is not the truth *)
Warn(s) == IF s.m \in Provable /\ Warns(s) THEN (IF Proofs(s) = "yes" /\ Plain(s) = "yes" /\ s.m = "bal" THEN "no" ELSE "may") ELSE "no"
Conf(s, k) == IF s[k] = <<>> THEN {} ELSE {k}
Init0(s) == IF s.client = "none" /\ s.chk # <<>> THEN {"chk", "bea", "prov"} ELSE {}        \* a client without any trust gets it first
May(s) == Init0(s) \cup (CASE s.m \in Provable -> (IF Warns(s) THEN {"rpc"} ELSE {}) \cup (IF Local(s) THEN {"rpc", "bea"} ELSE {"prov", "rpc"}) \cup (IF s.client = "none" THEN {"chk", "bea", "prov"} ELSE IF s.client = "have" THEN {} ELSE {"bea", "prov"})
            [] s.m = "gas" -> {"rpc"}
            [] s.m = "nope" /\ s.api = "request" /\ s.strat # "VerifiedOnly" -> {"rpc"}
            [] OTHER -> {})
Init == Start(Bases0)
Next == Deviate(D, K)
Sound(s) == Verdict(s) = "yes" /\ s.m \in Provable /\ ~Warns(s) => Needs(s) = {"ok"}
Grows(s) == Proofs(s) = "yes" => \A k \in {"rpc", "bea", "chk"} : Proofs([s EXCEPT ![k] = Append(@, "ok")]) = "yes"
Inv == Sound(sc) /\ Grows(sc) /\ PrintT("@@" \o ToJson([s |-> sc, ok |-> Verdict(sc), may |-> May(sc), warn |-> Warn(sc)]))
=============================================================================
