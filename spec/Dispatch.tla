------------------------------ MODULE Dispatch ------------------------------
(* Which request may be answered by which proof.

   The prover controls the whole message: it may combine the data, the proof and the version of any honest messages.
   s.m is the method the user called (with fixed honest arguments), s.data and s.proof name the honest message these parts are
   taken from. A genuine proof of something else never answers the request; what needs no proof is answered locally. *)
EXTENDS Product, Json
CONSTANTS Provable, Local, Others, Chains, DataKinds, D, K

(* the proof a method needs *)
Kind(m) == CASE m \in {"bal", "nonce", "code", "storage", "proof"} -> "account"
             [] m \in {"txhash", "txbh", "txbn"} -> "tx"
             [] m = "receipt" -> "receipt"
             [] m \in {"logs", "verlogs"} -> "logs"
             [] m \in {"blknum", "blkhash"} -> "block"
             [] m = "bn" -> "number"
             [] m \in {"call", "sim"} -> "call"
             [] OTHER -> "none"
Methods == Provable \cup Local \cup Others
Base(m) == [m |-> m, chain |-> "main",
            proof |-> IF m \in Provable THEN m ELSE "none",
            data |-> IF m \in Provable THEN m ELSE "none",
            msg |-> IF m \in Local THEN "empty" ELSE "full",     \* empty: no message at all | full | ctype (another type of chain) | version | sync (garbage sync data)
            com |-> "ok"]                                        \* the client trusts the committee: ok | not
Bases == {Base(m) : m \in Methods}
Relevant(s) == /\ s.msg = "empty" => s.proof = Base(s.m).proof /\ s.data = Base(s.m).data
Answerable(s) == /\ s.m \in Provable /\ Kind(s.proof) = Kind(s.m)
                 /\ s.com = "ok" /\ s.chain = "main" /\ s.msg \in {"full", "version"}
LocalAnswer(s) == s.m \in Local /\ s.msg \in {"empty", "full", "version"} /\ s.proof = "none"
Honest(s) == s.msg \in {"full", "empty"} /\ s.data = Base(s.m).data /\ s.proof = Base(s.m).proof /\ (s.m \in Provable => s.chain = "main" /\ s.com = "ok" /\ s.msg = "full")
Verdict(s) == CASE s.m \in Others -> "no"                         \* not proven, not local: never answered
                [] Honest(s) /\ s.m \in Provable \cup Local -> "yes"
                [] Answerable(s) \/ LocalAnswer(s) -> "any"       \* if it is answered, then truly
                [] OTHER -> "no"
Sound(s) == Verdict(s) # "no" => s.m \in Local \/ Kind(s.proof) = Kind(s.m)
Init == Start(Bases)
Next == Deviate(D, K)
Inv == Relevant(sc) => Sound(sc) /\ PrintT("@@" \o ToJson([s |-> sc, ok |-> Verdict(sc)]))
=============================================================================
