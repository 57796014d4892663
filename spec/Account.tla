------------------------------ MODULE Account ------------------------------
(* Values of accounts: eth_getBalance, eth_getTransactionCount, eth_getCode, eth_getStorageAt, eth_getProof.

   World: two signed blocks "cur" and "oth" and a block "evil" of the adversary, each with its own state.
   A proof is a term that names where each of its parts comes from; it is accepted iff the parts fit together. *)
EXTENDS Product, Json
CONSTANTS Methods, Accts, Breqs, KeyReqs, D, K

Base(m, a, b, k) == [method |-> m, acct |-> a, breq |-> b, keys |-> k,
   state |-> "cur",      \* the block all parts of the proof are taken from
   addr |-> "ok",        \* address in the proof: ok | other (another existing account) | absent
   acc |-> "ok",         \* account proof: ok | other (path of another account) | trunc | empty | tamper | foreign (other block's state) | swap
   sto |-> "ok",         \* storage proofs: ok | otherkey | swapped | missing | extra | otheracct | trunc | empty | tamper | foreign | dup | reorder | badkey
   blk |-> "ok",         \* block in the state proof: ok | none | num | hash | wrongnum | wronghash
   mp |-> "ok",          \* merkle proof in the block body: ok | short | long | tamper | empty | other | swapped
   hdr |-> "ok",         \* header: ok | other (the other signed header) | body (body root changed)
   data |-> "ok",        \* data of the prover: ok | given | none | wrong | trunc | empty | type
   argn |-> "ok"]        \* how the request is written: ok | upper (hex case) | shortkey (storage keys without leading zeros); or it asks for something
                         \* slightly different: num32 (number + 2^32) | hashhead, hashtail | addrhead, addrtail | keyhead, keytail (one byte changed)
HasKeys(m) == m \in {"storage", "proof"}
Tags == {"latest", "safe", "finalized"}
Relevant(s) == /\ (s.method = "storage") = (s.keys \in {"k1", "k2", "k0"})
               /\ (s.method = "proof") = (s.keys \in {"l", "l1", "l12", "l10"})
               /\ ~HasKeys(s.method) => s.keys = "-" /\ s.sto \in {"ok", "extra"}
               /\ s.keys = "l" => s.sto \in {"ok", "extra"}
               /\ s.sto \in {"reorder", "swapped"} => s.keys \in {"l12", "l10", "k1", "k2"}
               /\ s.sto = "reorder" => s.keys \in {"l12", "l10"}
               /\ s.method # "code" => s.data \in {"ok", "given", "type"}
               /\ s.method = "code" => s.data # "given"
               /\ s.acct \notin {"A"} => s.sto \in {"ok", "missing", "extra", "otheracct", "swapped", "reorder"}
RelevantArg(s) == /\ s.argn = "num32" => s.breq = "num"
                  /\ s.argn \in {"hashhead", "hashtail"} => s.breq = "hash"
                  /\ s.argn \in {"keyhead", "keytail", "shortkey"} => HasKeys(s.method) /\ s.keys # "l"
                  /\ s.argn = "shortkey" => s.keys \in {"k0", "k1", "l1", "l10"}
Bases == {s \in {Base(m, a, b, k) : m \in Methods, a \in Accts, b \in Breqs, k \in KeyReqs} : Relevant(s)}

(* ---- which facts the proof establishes *)
(* the state root reached by the account proof *)
AccState(s) == CASE s.acc \in {"trunc", "empty", "swap"} -> "broken"
                 [] s.acc = "tamper" -> "forged"
                 [] s.acc = "foreign" -> IF s.state = "oth" THEN "cur" ELSE "oth"
                 [] OTHER -> s.state
ProofAddr(s) == CASE s.addr = "ok" -> s.acct [] s.addr = "other" -> "X" [] OTHER -> "Y"     \* X: another existing account, Y: absent
(* the path of the account proof must be the path of the address *)
AccPath(s) == IF s.acc = "other" THEN (IF ProofAddr(s) = "X" THEN "W" ELSE "X") ELSE ProofAddr(s)
AccFits(s) == AccState(s) # "broken" /\ AccPath(s) = ProofAddr(s)
(* the merkle proof of the state root (and number or hash) in the block body *)
BlkKind(s) == CASE s.blk = "ok" -> (CASE s.breq = "num" -> "num" [] s.breq = "hash" -> "hash" [] OTHER -> "none")
                [] s.blk = "wrongnum" -> "num" [] s.blk = "wronghash" -> "hash" [] OTHER -> s.blk
BlkTrue(s) == s.blk \notin {"wrongnum", "wronghash"}
HdrBlock(s) == CASE s.hdr = "other" -> (IF s.state = "oth" THEN "cur" ELSE "oth") [] s.hdr = "body" -> "forged" [] OTHER -> s.state
BodyFits(s) == s.mp = "ok" /\ AccState(s) = HdrBlock(s) /\ s.state = HdrBlock(s) /\ BlkTrue(s)
Signed(s) == HdrBlock(s) \in {"cur", "oth"}
(* the request names block "cur" (num, hash, object) or any *)
BlockFits(s) == CASE s.breq = "num" -> BlkKind(s) = "num" /\ HdrBlock(s) = "cur"
                  [] s.breq = "hash" -> BlkKind(s) = "hash" /\ HdrBlock(s) = "cur"
                  [] s.breq \in {"object", "earliest", "pending"} -> FALSE
                  [] OTHER -> TRUE
StoFits(s) == ~HasKeys(s.method) \/ s.sto \in {"ok", "extra", "dup", "reorder", "missing", "badkey"}
KeysFit(s) == ~HasKeys(s.method) \/ s.sto = "ok"
DataFits(s) == CASE s.method = "code" -> s.data = "ok" [] OTHER -> TRUE
ArgFits(s) == s.argn \in {"ok", "upper", "shortkey"}
Accept(s) == ArgFits(s) /\ AccFits(s) /\ BodyFits(s) /\ Signed(s) /\ BlockFits(s) /\ StoFits(s) /\ KeysFit(s) /\ DataFits(s) /\ ProofAddr(s) = s.acct

(* ---- what the user relies on: the claim is about the requested account, in a signed block, and if a block is named, in this one *)
Claim(s) == [who |-> AccPath(s), state |-> AccState(s)]
Sound(s) == Accept(s) => /\ Claim(s).who = s.acct
                         /\ Claim(s).state \in {"cur", "oth"} /\ HdrBlock(s) = Claim(s).state
                         /\ s.breq \in {"num", "hash", "object"} => Claim(s).state = "cur"
                         /\ HasKeys(s.method) => s.sto = "ok"
Honest(s) == s = [Base(s.method, s.acct, s.breq, s.keys) EXCEPT !.argn = s.argn] /\ ArgFits(s) /\ s.breq \notin {"object", "earliest", "pending"}
(* verdict: yes (must be accepted), no (must be rejected), any (must not yield anything but the truth) *)
Harmless(s) == \/ s.data \in {"given", "type"} /\ s.method # "code"
               \/ s.breq \in Tags /\ s.blk # "ok"
               \/ s.sto # "ok" /\ ~HasKeys(s.method)
               \/ s.state = "oth"
Verdict(s) == IF Honest(s) THEN "yes" ELSE IF ~Accept(s) THEN "no" ELSE IF Harmless(s) THEN "any" ELSE "yes"

Init == Start(Bases)
Next == Deviate(D, K)
Inv == Relevant(sc) /\ RelevantArg(sc) => /\ Sound(sc) /\ (Honest(sc) => Accept(sc))
                       /\ PrintT("@@" \o ToJson([s |-> sc, ok |-> Verdict(sc)]))
=============================================================================
