------------------------------- MODULE Prove -------------------------------
(* A request of a user is turned into a proof by the prover, which only knows what its execution node, its beacon node and
   its chain store tell, and the proof is handed to the verifier of the user.

   The chain: the target block has index 0, there are d blocks after it. Block i+1 carries the signature of the sync committee
   for block i unless 1 <= i+1 <= uns. A block is provable by the first signature after it; the blocks in between are linked
   by their headers, of which at most MaxHeaders are delivered. Blocks of periods the client does not know any more (hist)
   are proven by the historical summaries of the head, if the prover has a chain store.

   At most one kind of request (fcl) is answered wrongly (fk) by all nodes (fper = always) or only by the first one (once). *)
EXTENDS Product, Json
CONSTANTS Methods, Shapes, Chains, D, K, FaultKinds,
          Retry        \* kinds of wrong rpc answers after which the next node is asked
Account == {"bal", "nonce", "code", "storage", "proof"}
ByHash == {"blkhash", "txhash", "txbh", "txbn", "receipt", "bn", "verlogs"}
Tags == {"latest", "safe", "finalized"}
MaxHeaders == 10
Base(m, b, sh, c) == [m |-> m, blk |-> b, shape |-> sh, chain |-> c, acct |-> "A", keys |-> IF m = "storage" THEN "k1" ELSE IF m = "proof" THEN "l12" ELSE "-",
   at |-> IF sh = "many" THEN 259 ELSE 0,       \* the block with many transactions repeats them: only the last ones are unique for a hash
   filt |-> "all", d |-> 3, skip |-> 0, uns |-> 0, hist |-> "no", client |-> "have", sync |-> "no", store |-> "no", uv |-> "no",
   body |-> "some",     \* what the beacon blocks carry besides the payload: some, none, full
   enc |-> "ssz",       \* how the beacon node encodes blocks
   warm |-> "no",       \* what the prover proved before: nothing, an earlier block (near), a block whose number has the same leading bytes (x256)
   fcl |-> "-", fk |-> "none", fper |-> "always", order |-> "fwd"]
(* ---- the chain *)
SignedAt(s, i) == i \in 1 .. s.d /\ i \notin 1 .. s.uns                 \* block i carries the signature for block i-1
FirstSig(s) == {i \in 1 .. s.d : SignedAt(s, i) /\ \A j \in 1 .. i - 1 : ~SignedAt(s, j)}
HeadersNeeded(s) == (CHOOSE i \in FirstSig(s) : TRUE) - 1                  \* headers between the target and the signed one, including the latter
TargetProvable(s) == FirstSig(s) # {} /\ HeadersNeeded(s) <= MaxHeaders
Known(s) == IF s.hist = "yes" THEN s.store = "yes" /\ s.client \in {"have", "old"} ELSE TRUE   \* the client is able to get the sync committee
(* ---- what is asked *)
Locate(s) == CASE s.blk \in {"num", "rng"} -> {"rpc:eth_getBlockByNumber", "parent", "block"}
               [] s.blk = "hash" -> {"rpc:eth_getBlockByHash", "rpc:eth_getBlockByNumber", "parent", "block"}
               [] s.blk = "latest" -> {"block"}
               [] OTHER -> {"finality", "parent", "block"}
Requests(s) == Locate(s) \cup (IF s.uns > 0 THEN {"header", "parent"} ELSE {}) \cup (IF s.hist = "yes" /\ s.store = "yes" THEN {"summaries", "blocks"} ELSE {})
   \cup (IF s.m \in Account THEN {"rpc:eth_getProof"} ELSE {}) \cup (IF s.m = "code" THEN {"rpc:eth_getCode"} ELSE {})
   \cup (IF s.m \in {"txhash", "receipt"} THEN {"rpc:eth_getTransactionByHash", "rpc:eth_getBlockByNumber", "rpc:eth_getBlockByHash"} ELSE {})
   \cup (IF s.m = "receipt" THEN {"rpc:eth_getBlockReceipts"} ELSE {}) \cup (IF s.m \in {"logs", "verlogs"} THEN {"rpc:eth_getLogs", "rpc:eth_getBlockReceipts"} ELSE {})
   \cup (IF s.client \in {"old", "cp", "empty"} THEN {"updates"} ELSE {}) \cup (IF s.client \in {"cp", "empty"} THEN {"bootstrap"} ELSE {})
Relevant(s) == /\ (s.fcl = "-") <=> (s.fk = "none")
               /\ s.fk = "none" => s.fper = "always"
               /\ s.fcl # "-" => s.fcl \in Requests(s)
               /\ s.blk = "rng" => s.m = "logs" /\ s.d > 1
               /\ s.m \in ByHash => s.blk = "num"
               /\ s.m = "logs" => s.blk \in {"num", "hash", "rng"}
               /\ s.m = "blknum" => s.blk # "hash"
               /\ s.uns <= s.d
               /\ s.shape = "empty" => s.m \notin {"txhash", "txbh", "txbn", "receipt", "verlogs"}
               /\ (s.hist = "yes" => s.blk \notin Tags \cup {"rng"} /\ s.m # "bn")
               /\ s.shape = "many" => s.at \in 257 .. 259
               /\ s.warm # "no" => s.hist = "no"
               /\ s.filt # "all" => s.m \in {"logs"}
               /\ s.acct # "A" => s.m \in Account
               /\ s.keys # "-" => s.m \in {"storage", "proof"}
               /\ s.m = "storage" => s.keys \in {"k1", "k2", "k0"}
               /\ s.m = "proof" => s.keys \in {"l", "l1", "l12", "l10", "lmany"}
Bases == {s \in {Base(m, b, sh, c) : m \in Methods, b \in {"num", "hash", "rng"} \cup Tags, sh \in Shapes, c \in Chains} : Relevant(s)}
ByTag(s) == s.blk \in Tags \/ s.m = "bn"
Provable(s) == IF ByTag(s) THEN s.uns = 0 ELSE IF s.blk = "rng" THEN s.uns = 0 ELSE TargetProvable(s)
Impossible(s) == ~ByTag(s) /\ s.blk # "rng" /\ s.m # "logs" /\ FirstSig(s) = {}
Repaired(s) == s.fper = "once" /\ s.fk \in Retry /\ s.fcl \in {"rpc:eth_getBlockByNumber", "rpc:eth_getBlockByHash", "rpc:eth_getTransactionByHash", "rpc:eth_getBlockReceipts", "rpc:eth_getLogs", "rpc:eth_getProof", "rpc:eth_getCode"}
Verdict(s) == IF Impossible(s) THEN "no" ELSE IF Provable(s) /\ Known(s) /\ (s.fk = "none" \/ Repaired(s)) THEN "yes" ELSE "any"
(* only what is signed can be proven, and an honest environment is always enough for it *)
Sound(s) == Verdict(s) = "yes" => ByTag(s) \/ s.blk = "rng" \/ \E i \in 1 .. s.d : SignedAt(s, i)
Init == Start(Bases)
Next == Deviate(D, K)
Inv == Relevant(sc) => Sound(sc) /\ PrintT("@@" \o ToJson([s |-> sc, ok |-> Verdict(sc)]))
=============================================================================
