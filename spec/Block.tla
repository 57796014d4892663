------------------------------- MODULE Block -------------------------------
(* Blocks (eth_getBlockByNumber, eth_getBlockByHash) and the block number (eth_blockNumber).

   World: two signed blocks "cur" and "oth", a block "evil" of the adversary. The proof contains the execution payload,
   a branch to the body root, the header and its signature. Roots are ideal: a root fits only the value it was made of. *)
EXTENDS Product, Json
CONSTANTS Methods, Breqs, Fulls, Chains, Shapes, D, K

Base(m, b, f, c, sh) == [method |-> m, breq |-> b, full |-> f, chain |-> c, shape |-> sh,
   state |-> "cur",    \* where the parts come from
   pf |-> "ok",        \* payload: which part was altered after it was committed
   un |-> "ok",        \* payload type: ok | other (of the other family of chains)
   mp |-> "ok",        \* branch
   hdr |-> "ok",       \* header: ok | other | altered field
   data |-> "ok",      \* ok | given (forged block data) | type
   argn |-> "ok"]      \* ok | upper | zeros; or the request is about something close: num32, num64 (number + 2^32, 2^64) | head, tail (a byte of the hash changed)
                       \* parent | stateroot (another hash of this block) | shorthash | longhash
Tags == {"latest", "safe", "finalized"}
TxParts == {"txdrop", "txswap", "txdup", "txbyte"}
WdParts == {"wddrop", "wdamount"}
NumParts == {"blockNumber", "timestamp"}
Ntx(sh) == CASE sh = "empty" -> 0 [] sh = "wd" -> 1 [] OTHER -> 2
Nwd(sh) == IF sh \in {"empty", "two"} THEN 0 ELSE 1
Relevant(s) ==
   /\ s.method = "bn" => s.breq = "none" /\ s.full = "false" /\ s.pf \in {"ok"} \cup NumParts /\ s.un = "ok" /\ s.argn = "ok" /\ s.shape \in {"all", "empty"}
   /\ s.method # "bn" => s.breq # "none"
   /\ s.method = "hash" => s.breq \in {"right"}
   /\ s.pf \in TxParts => Ntx(s.shape) > 0
   /\ s.pf \in {"txswap"} => Ntx(s.shape) > 1
   /\ s.pf \in WdParts => Nwd(s.shape) > 0
   /\ s.argn # "ok" => s.breq = "right"
   /\ s.argn \in {"zeros", "num32", "num64"} => s.method = "num"
   /\ s.argn \in {"head", "tail", "parent", "stateroot", "shorthash", "longhash"} => s.method = "hash"
Bases == {s \in {Base(m, b, f, c, sh) : m \in Methods, b \in Breqs, f \in Fulls, c \in Chains, sh \in Shapes} : Relevant(s)}

Other(st) == IF st = "oth" THEN "cur" ELSE "oth"
(* a term for the root of the payload, of the body, and of the header *)
PayloadRoot(s) == IF s.pf = "ok" /\ s.un = "ok" THEN s.state ELSE "forged"
BodyOf(s) == CASE s.hdr = "other" -> Other(s.state) [] s.hdr = "body" -> "forged" [] OTHER -> s.state
BranchFits(s) == s.mp = "ok" /\ PayloadRoot(s) = BodyOf(s)
Signed(s) == s.hdr \in {"ok", "other", "body"} /\ BodyOf(s) \in {"cur", "oth"}
BlockFits(s) == CASE s.breq = "right" -> BodyOf(s) = "cur"
                  [] s.breq \in Tags \cup {"none"} -> TRUE
                  [] OTHER -> FALSE
ArgFits(s) == s.argn \in {"ok", "upper", "zeros"}
Accept(s) == ArgFits(s) /\ BranchFits(s) /\ Signed(s) /\ BlockFits(s)
Claim(s) == PayloadRoot(s)
Sound(s) == Accept(s) => Claim(s) \in {"cur", "oth"} /\ (s.breq = "right" => Claim(s) = "cur")
Plain(s) == Base(s.method, s.breq, s.full, s.chain, s.shape)
Honest(s) == s = Plain(s) /\ s.breq \in Tags \cup {"right", "none"}
Verdict(s) == IF Honest(s) THEN "yes" ELSE IF ~Accept(s) THEN "no" ELSE "any"
Init == Start(Bases)
Next == Deviate(D, K)
Inv == Relevant(sc) => /\ Sound(sc) /\ (Honest(sc) => Accept(sc))
                       /\ PrintT("@@" \o ToJson([s |-> sc, ok |-> Verdict(sc)]))
=============================================================================
