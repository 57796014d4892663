-------------------------------- MODULE Tx --------------------------------
(* Transactions and receipts: eth_getTransactionByHash, ...ByBlockHashAndIndex, ...ByBlockNumberAndIndex, eth_getTransactionReceipt.

   World: signed blocks "cur" and "oth" and a block "evil" of the adversary, each with a list of transactions and their receipts.
   The request is about transaction `at` of block "cur". *)
EXTENDS Product, Json
CONSTANTS Methods, Shapes, Ats, Chains, D, K

Base(m, sh, a, c) == [method |-> m, shape |-> sh, at |-> a, chain |-> c,
   state |-> "cur",   \* block the parts come from
   idx |-> "ok",      \* proven position: ok | other | past (behind the list) | wrap (+2^20) | huge
   tx |-> "ok",       \* raw transaction: ok | other | byte | foreign | trunc | ext | empty
   bh |-> "ok", bn |-> "ok", bf |-> "ok",   \* block hash, block number, base fee in the proof: ok | wrong
   rp |-> "ok",       \* receipt proof: ok | other (another position) | trunc | forged | foreign | empty | extra
   dat |-> "ok",      \* receipt data of the prover: ok | altered part
   mp |-> "ok", hdr |-> "ok",
   data |-> "ok",     \* for transactions no data may be given: ok | given | type
   req |-> "ok"]      \* request: ok | upper | badhash | badidx | tag | nextblock | num32, num64, idx32, idx64 (number or index + 2^32, 2^64)
                      \* headhash (first byte changed) | parent, stateroot (another hash of the block) | shorthash | longhash
NTx(sh) == CASE sh = "all" -> 22 [] sh = "opall" -> 16 [] sh = "wd" -> 1 [] sh = "two" -> 2 [] OTHER -> 260
Receipt(s) == s.method = "receipt"
SameInBoth(s) == s.shape = "all" /\ s.at \in 12..15     \* these transactions exist in both blocks
(* how many logs the receipt of a position has *)
NLogs(s) == CASE s.at % 4 = 0 -> 2 [] s.at % 4 = 1 -> 0 [] s.at % 4 = 2 -> 1 [] OTHER -> 3
LogParts == {"logdrop", "logaddr", "logtopic", "logdata", "logblockhash", "lognumber", "logtxhash", "logtxidx", "logindex", "logremoved", "logtopicdrop", "logtopicadd"}
Creation(s) == (s.shape = "all" /\ s.at \in {7, 8}) \/ (s.shape = "opall" /\ s.at \in {3, 10, 11})
BadHash == {"badhash", "headhash", "shorthash", "longhash"}
Relevant(s) ==
   /\ s.at < NTx(s.shape)
   /\ Receipt(s) => s.bf = "ok" /\ s.req \in {"ok", "upper"} \cup BadHash /\ s.data \in {"ok", "type"}
   /\ ~Receipt(s) => s.rp = "ok" /\ s.dat = "ok"
   /\ s.method = "hash" => s.req \in {"ok", "upper"} \cup BadHash
   /\ s.method = "bh" => s.req \in {"ok", "upper", "badidx", "idx32", "idx64", "parent", "stateroot"} \cup BadHash
   /\ s.method = "bn" => s.req \in {"ok", "badidx", "idx32", "idx64", "tag", "nextblock", "num32", "num64"}
   /\ s.idx = "other" \/ s.tx = "other" \/ s.rp = "other" => NTx(s.shape) > 1
   /\ s.state = "oth" \/ s.tx = "foreign" \/ s.rp = "foreign" => ~SameInBoth(s)
   /\ s.dat \in LogParts => NLogs(s) > 0
   /\ s.dat = "logtopicdrop" \/ s.dat = "logtopic" => s.at % 4 # 3       \* the altered log has topics
   /\ s.dat = "logswap" => NLogs(s) > 1
   /\ s.dat \in {"to", "mb7"} => ~Creation(s)
Bases == {s \in {Base(m, sh, a, c) : m \in Methods, sh \in Shapes, a \in Ats, c \in Chains} : Relevant(s)}

Other(st) == IF st = "oth" THEN "cur" ELSE "oth"
BodyOf(s) == CASE s.hdr = "other" -> Other(s.state) [] s.hdr = "body" -> "forged" [] OTHER -> s.state
Signed(s) == s.hdr \in {"ok", "other", "body"} /\ BodyOf(s) \in {"cur", "oth"}
OtherAt(s) == IF s.at + 1 < NTx(s.shape) THEN s.at + 1 ELSE s.at - 1
Pos(s) == CASE s.idx = "ok" -> s.at [] s.idx = "other" -> OtherAt(s) [] OTHER -> 99999
(* the transaction the raw bytes stand for *)
OtherOf(s, i) == IF i = s.at THEN OtherAt(s) ELSE s.at
RawOf(s) == CASE s.tx = "ok" -> <<s.state, IF Pos(s) = 99999 THEN s.at ELSE Pos(s)>>
              [] s.tx = "other" -> <<s.state, OtherOf(s, IF Pos(s) = 99999 THEN s.at ELSE Pos(s))>>
              [] s.tx = "foreign" -> <<Other(s.state), IF Pos(s) = 99999 THEN s.at ELSE Pos(s)>>
              [] OTHER -> <<"forged", 0>>
BodyFits(s) == /\ s.mp = "ok" /\ BodyOf(s) = s.state /\ s.bh = "ok" /\ s.bn = "ok" /\ s.bf = "ok"
               /\ RawOf(s) = <<s.state, Pos(s)>>
(* the receipt proof leads from the receipts root of the block to the receipt of a position *)
RcptFits(s) == ~Receipt(s) \/ s.rp = "ok"
DataFits(s) == CASE Receipt(s) -> s.dat = "ok" /\ s.data = "ok" [] OTHER -> s.data = "ok"
(* what is asked for *)
Asked(s) == CASE s.req \in BadHash \cup {"idx32", "idx64", "parent", "stateroot", "num32", "num64"} -> <<"nothing", 0>>
              [] s.req = "tag" -> <<"any", s.at>>
              [] s.req = "badidx" -> <<"cur", s.at + 1>>
              [] s.req = "nextblock" -> <<"oth", s.at>>
              [] OTHER -> <<"cur", s.at>>
ReqFits(s) == CASE s.method \in {"hash", "receipt"} -> RawOf(s) = Asked(s)
                [] s.req = "tag" -> FALSE                                   \* not supported by the verifier
                [] OTHER -> <<BodyOf(s), Pos(s)>> = Asked(s)
Accept(s) == BodyFits(s) /\ RcptFits(s) /\ DataFits(s) /\ Signed(s) /\ ReqFits(s)
Sound(s) == Accept(s) => RawOf(s) = Asked(s) /\ <<BodyOf(s), Pos(s)>> = Asked(s)
Plain(s) == Base(s.method, s.shape, s.at, s.chain)
Honest(s) == s = Plain(s)
Verdict(s) == IF Honest(s) THEN "yes" ELSE IF Accept(s) THEN "any" ELSE "no"
Init == Start(Bases)
Next == Deviate(D, K)
Inv == Relevant(sc) => /\ Sound(sc) /\ (Honest(sc) => Accept(sc))
                       /\ PrintT("@@" \o ToJson([s |-> sc, ok |-> Verdict(sc)]))
=============================================================================
