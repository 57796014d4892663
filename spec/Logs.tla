-------------------------------- MODULE Logs --------------------------------
(* eth_getLogs (the prover delivers the logs) and eth_verifyLogs (the user has the logs).

   World: signed blocks "cur" and "oth" with six transactions each, a block "evil" of the adversary. The proof contains
   for every block the transactions (with receipt proofs) whose receipts contain the logs.
   That no matching log is missing can not be proven by this protocol; every delivered log must be genuine and asked for. *)
EXTENDS Product, Json
CONSTANTS Methods, Filters, Ats, D, K

Base(m, f, a) == [method |-> m, filter |-> f,
   at |-> a,           \* which transaction of the proof the deviations concern: last (of the last block) | first (of the first block) | firsttx (first of the last block)
   state |-> "oth",    \* the second block of the proof: oth | evil
   lg |-> "ok",        \* the list of logs
   pos |-> "first",    \* which log of the last block is altered: first | last | deep (behind many others of its transaction)
   pb |-> "ok",        \* the list of blocks and transactions of the proof
   tx |-> "ok",        \* last transaction of the last block: ok | byte | other
   rp |-> "ok",        \* its receipt proof: ok | trunc | other | forged | foreign | empty
   bh |-> "ok", bn |-> "ok",   \* block hash and number of the last block: ok | wrong (in the proof and in the logs)
   mp |-> "ok", hdr |-> "ok",
   data |-> "ok"]      \* get: ok | none | type     ver: ok | given
Wild == {"none", "emptyarr", "range", "tag"}          \* every log of both blocks matches
One == {"hash", "one", "upto"}                        \* only block cur
Altered == {"addr", "topic", "topicdrop", "topicadd", "data", "blockhash", "number", "txhash", "txidx", "removed", "wrongtx", "fabricated", "wrongblock"}
Harmless == {"ok", "drop", "dup", "order"}
Relevant(s) == /\ s.filter = "empty" => s.lg \in {"ok", "unproven"} /\ s.pb = "ok" /\ s.tx = "ok" /\ s.rp = "ok" /\ s.bh = "ok" /\ s.bn = "ok" /\ s.mp = "ok" /\ s.hdr = "ok" /\ s.state = "oth"
               /\ s.lg = "extra" => s.filter \notin Wild \cup {"empty"}
               /\ s.method = "ver" => s.filter \in {"none", "addr0", "t0", "one"} /\ s.data \in {"ok", "given"}
               /\ s.method = "get" => s.data # "given"
               /\ s.pos # "first" => s.lg \in Altered \cup {"index"}
               /\ s.state = "evil" => s.filter \notin One
               /\ s.at # "last" => s.filter \in {"none", "two", "or2", "range"} /\ s.pb = "ok" /\ s.lg \in {"ok", "drop", "dup"} \cup (Altered \ {"wrongtx", "wrongblock"}) /\ s.pos = "first"
               /\ s.pb = "dropblock" => s.filter \notin One
Bases == {s \in {Base(m, f, a) : m \in Methods, f \in Filters, a \in Ats} : Relevant(s)}
(* each delivered log is in a receipt the proof commits to *)
ProofFits(s) == /\ s.tx = "ok" /\ s.rp = "ok" /\ s.bh = "ok" /\ s.bn = "ok" /\ s.mp = "ok" /\ s.hdr = "ok" /\ s.state = "oth" /\ s.pb \in {"ok", "duptx", "dupblock"}
LogsTrue(s) == s.lg \in Harmless \cup {"extra"}
FilterFits(s) == s.method = "get" => s.lg # "extra"
DataFits(s) == s.data = "ok"
Accept(s) == ProofFits(s) /\ LogsTrue(s) /\ FilterFits(s) /\ DataFits(s)
Sound(s) == Accept(s) => s.lg \notin Altered \cup {"unproven"} /\ s.state # "evil"
Honest(s) == s = Base(s.method, s.filter, s.at)
Verdict(s) == IF Honest(s) THEN "yes" ELSE IF Accept(s) \/ s.lg = "drop" THEN "any" ELSE "no"
Init == Start(Bases)
Next == Deviate(D, K)
Inv == Relevant(sc) => /\ Sound(sc) /\ (Honest(sc) => Accept(sc))
                       /\ PrintT("@@" \o ToJson([s |-> sc, ok |-> Verdict(sc)]))
=============================================================================
