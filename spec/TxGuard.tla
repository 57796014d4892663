------------------------------ MODULE TxGuard ------------------------------
(* Sending a transaction with a client that verifies transactions (verifyTransactions): the wallet signs, the client compares, and only a transaction
   that says what the user asked for is broadcast.

   The user names a receiver (or none: a contract is created), a value and data - what is not named is nothing - and may fix gas, fees, nonce and sender.
   Values come in the forms applications use: hex in lower or mixed case, with leading zeros, as a number.
   The wallet (or what took its place) signs anything.
   Broadcast iff signed = asked.  Nothing else ever reaches a node, and the wallet is only asked to sign, never to send. *)
EXTENDS Product, Json
CONSTANTS Bases0, D, K
(* what the wallet may change without being asked: only what the user left open *)
Fixed(s) == s.style # "open"
Changed(s) == \/ s.sto # "same" \/ s.sval # "same" \/ s.sdata # "same" \/ s.sextra = "auth"
              \/ s.sfrom # "same" /\ s.from = "yes"
              \/ s.schain \notin {"same", "none"}
              \/ Fixed(s) /\ (s.sgas # "same" \/ s.sfee # "same" \/ s.snonce # "same")
Damaged(s) == s.raw \in {"cut", "more", "pre"}                       \* no node accepts these bytes
Garbage(s) == s.raw # "ok" /\ ~Damaged(s)
Unclear(s) == \/ Damaged(s)
              \/ s.schain = "none"                                   \* without replay protection
              \/ s.sextra # "none"                                   \* access lists, blobs
              \/ s.vform \in {"dec", "big"}                          \* not a form of the JSON-RPC interface
              \/ s.dname = "both"
              \/ Fixed(s) /\ s.skind # "same"                        \* fees of another kind
Verdict(s) == IF s.wallet = "none" THEN "no" ELSE IF Changed(s) \/ Garbage(s) THEN "no" ELSE IF Unclear(s) THEN "any" ELSE "yes"
(* values that do not differ are not a change *)
Real(s) == /\ ~(s.sto = "none" /\ s.to = "none")
           /\ ~(s.sdata \in {"trim", "empty", "zero"} /\ s.data \in {"none", "empty"} /\ s.sdata # "zero")
           /\ ~(s.sdata = "trim" /\ s.data # "lead")
           /\ ~(s.sval = "zero" /\ s.value \in {"none", "zero"})
           /\ ~(s.sfee = "prio" /\ s.style = "leg" /\ s.skind = "same")
           /\ ~(s.sval = "shift" /\ s.value # "some")
Init == Start(Bases0)
Next == Deviate(D, K)
Inv == (Verdict(sc) = "yes" => ~Changed(sc) /\ ~Garbage(sc)) /\ (Real(sc) => PrintT("@@" \o ToJson([s |-> sc, ok |-> Verdict(sc)])))
=============================================================================
