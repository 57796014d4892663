------------------------------ MODULE OpProve ------------------------------
(* OP-Stack chains: a request is turned into a proof by the prover, which gets the signed payload of the block from its store of preconfirmations
   and everything else from an execution node; the verifier of the user only knows the sequencer.

   The chain has d blocks after the target (index 0). "latest" is the newest block but one, because the store may not have the newest yet.
   At most one kind of request (fcl) is answered wrongly (fk), by all nodes (always) or by the first one only (once). *)
EXTENDS Product, Json
CONSTANTS Methods, Shapes, Chains, D, K, Retry
Account == {"bal", "nonce", "code", "storage", "proof"}
ByHash == {"blkhash", "txhash", "txbh", "txbn", "receipt", "bn", "verlogs"}
Base(m, b, sh, c) == [m |-> m, blk |-> b, shape |-> sh, chain |-> c, acct |-> "A", keys |-> IF m = "storage" THEN "k1" ELSE IF m = "proof" THEN "l12" ELSE "-", at |-> 0,
   filt |-> "all", d |-> 2, fcl |-> "-", fk |-> "none", fper |-> "always", order |-> "fwd", uv |-> "no"]
Requests(s) == {"preconf"} \cup (IF s.m \in Account THEN {"rpc:eth_getProof"} ELSE {}) \cup (IF s.m = "code" THEN {"rpc:eth_getCode"} ELSE {})
   \cup (IF s.m \in {"txhash", "receipt"} THEN {"rpc:eth_getTransactionByHash"} ELSE {})
   \cup (IF s.m = "receipt" THEN {"rpc:eth_getBlockReceipts"} ELSE {}) \cup (IF s.m = "verlogs" THEN {"rpc:eth_getBlockReceipts"} ELSE {})
   \cup (IF s.m = "logs" THEN {"rpc:eth_getLogs", "rpc:eth_getBlockReceipts"} ELSE {})
Relevant(s) == /\ (s.fcl = "-") <=> (s.fk = "none")
               /\ s.fk = "none" => s.fper = "always"
               /\ s.fcl # "-" => s.fcl \in Requests(s)
               /\ s.blk = "rng" => s.m = "logs"
               /\ s.m \in ByHash => s.blk = "num"
               /\ s.m = "logs" => s.blk \in {"num", "hash", "rng"}
               /\ s.m = "blknum" => s.blk # "hash"
               /\ s.shape = "empty" => s.m \notin {"txhash", "txbh", "txbn", "receipt", "verlogs"}
               /\ s.shape = "many" => s.m \notin {"txhash", "receipt"}   \* the transactions of this block are not unique
               /\ s.filt # "all" => s.m = "logs"
               /\ s.acct # "A" => s.m \in Account
               /\ s.at # 0 => s.m \notin Account \cup {"logs", "verlogs", "bn"}
               /\ s.keys # "-" => s.m \in {"storage", "proof"}
               /\ s.m = "storage" => s.keys \in {"k1", "k2", "k0"}
               /\ s.m = "proof" => s.keys \in {"l", "l1", "l12", "l10", "lmany"}
Bases == {s \in {Base(m, b, sh, c) : m \in Methods, b \in {"num", "hash", "rng", "latest"}, sh \in Shapes, c \in Chains} : Relevant(s)}
(* a node whose answer has no result or that does not understand the request is replaced by the next one; the store of preconfirmations is part of the prover: its errors are final *)
Repaired(s) == s.fper = "once" /\ s.fk \in Retry /\ s.fcl # "preconf"
Verdict(s) == IF s.fk = "none" \/ Repaired(s) THEN "yes" ELSE "any"
Sound(s) == s.fcl = "preconf" => Verdict(s) = "any"
Init == Start(Bases)
Next == Deviate(D, K)
Inv == Relevant(sc) => Sound(sc) /\ PrintT("@@" \o ToJson([s |-> sc, ok |-> Verdict(sc)]))
=============================================================================
