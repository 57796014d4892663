------------------------------- MODULE Anchor -------------------------------
(* When does a beacon header count as proven?

   An ideal signature is a term [msg, com, bits]; it verifies for exactly this message, committee and set of signers.
   A message is [hdr, chain, fork, type]: header, genesis of the chain, fork version and domain type.
   The adversary may combine everything that was ever signed, and may sign with its own keys (committee "E").

   The target header can be signed itself ("sig"), be an ancestor of the signed header ("chain"), or be one of the
   block roots committed by the state of the signed header ("hist"). *)
EXTENDS Product, Json

CONSTANTS Chains, Eras, Poss,   \* which chains, forks and positions within the period
          D,                    \* deviations per dimension
          K, Kinds

(* dimensions of a scenario
   kind    sig | chain | hist
   store   committees the client knows: cur, prev, both, none (relative to the period of the signature)
   com     who signed: cur, prev, next, old, evil
   n       number of signers
   bits    claim about the signers: "exact", "more", "fewer", "moved"
   fork    fork version in the domain: ok | older | newer ; gen: genesis root ok | other ; typ: domain type ok | other
   hdr     field of the signed header changed after signing (or "none")
   sig     "ok" or a mangled signature
   tgt     field of the target header (the one the result is proven against) changed: none | slot | parent | state | body | other
   len     number of intermediate headers (chain)
   link    what is wrong with the intermediate headers: none | drop | dup | swap | parent | state, slot, body or proposer changed at an end or in the middle
   loc     where the historic root lies: roots | summ ; ix what is wrong with the index: none | neighbour | field | short | longer | wrongfork | staterootlist | root | summstate
   br      the branch: ok | tamper | short | long | empty
   prime   what the client verified before: nothing | same (the same signed header, honestly) | fake (a failed attempt)
           foreign (the same header, honestly signed on another chain) | near, neartail (another header of this chain whose signing root begins or ends alike) *)
Base(c, e, p, k) == [chain |-> c, era |-> e, pos |-> p, kind |-> k, store |-> "both", com |-> "cur", n |-> 512, bits |-> "exact", fork |-> "ok", gen |-> "ok", typ |-> "ok",
                     hdr |-> "none", sig |-> "ok", tgt |-> "none", len |-> 2, link |-> "none", loc |-> "roots", ix |-> "none", br |-> "ok", prime |-> "nothing"]
(* the root of the target lies in the state of the signed header, but not as a block root *)
Elsewhere == {"in_state_roots", "in_summ_state", "in_validators", "in_body", "in_hist_roots", "in_wrongfork", "in_mix"}
Relevant(s) == /\ s.kind # "chain" => s.len = 2 /\ s.link = "none"
               /\ s.kind # "hist" => s.loc = "roots" /\ s.ix = "none" /\ s.br = "ok"
               /\ s.kind = "sig" => s.tgt = "none"
               /\ s.len = 0 => s.link \in {"none", "parent", "dup"}
               /\ s.len = 1 => s.link # "swap"
               /\ s.prime = "same" => s.hdr = "none" /\ s.ix \notin Elsewhere
               /\ s.prime \in {"foreign", "near", "neartail"} => s.kind = "sig"
               /\ s.bits = "more" => s.n < 512
               /\ s.bits \in {"fewer", "moved"} => s.n > 0 /\ s.n < 512
Bases == {Base(c, e, p, k) : c \in Chains, e \in Eras, p \in Poss, k \in Kinds}

------------------------------------------------------------------------------
(* the set of signers is abstracted to <<size, arrangement>>; the claimed one equals the real one only for "exact" *)
RealBits(s) == <<s.n, "as signed">>
ClaimBits(s) == CASE s.bits = "exact" -> RealBits(s) [] s.bits = "more" -> <<s.n + 1, "other">> [] s.bits = "fewer" -> <<s.n - 1, "other">> [] OTHER -> <<s.n, "other">>
Signature(s) == [com |-> s.com, bits |-> RealBits(s), intact |-> s.sig = "ok",
                 msg |-> [hdr |-> "none", chain |-> s.gen, fork |-> s.fork, type |-> s.typ]]
Expect(s) == [hdr |-> s.hdr, chain |-> "ok", fork |-> "ok", type |-> "ok"]
SigOk(s, com) == LET g == Signature(s) IN g.intact /\ g.com = com /\ g.bits = ClaimBits(s) /\ g.msg = Expect(s) /\ ClaimBits(s)[1] > 0
Known(s) == CASE s.store = "both" -> {"cur", "prev"} [] s.store = "none" -> {} [] OTHER -> {s.store}
Quorum(s) == 3 * ClaimBits(s)[1] >= 2 * 512
(* a header whose signing root was verified before does not need its signature to be verified again *)
Cached(s) == s.prime = "same" /\ s.hdr = "none"
HeaderSigned(s) == /\ Quorum(s) /\ "cur" \in Known(s)
                   /\ Cached(s) \/ SigOk(s, "cur") \/ ("prev" \in Known(s) /\ SigOk(s, "prev"))
Linked(s) == CASE s.kind = "sig" -> TRUE
               [] s.kind = "chain" -> s.link = "none" /\ s.tgt = "none"
               [] OTHER -> s.ix = "none" /\ s.br = "ok" /\ s.tgt = "none"
Accept(s) == HeaderSigned(s) /\ Linked(s)

(* what the user relies on, independent of the procedure *)
GenuineSignature(s) == s.com \in {"cur", "prev"} /\ s.n >= 342 /\ s.hdr = "none" /\ s.gen = "ok" /\ s.fork = "ok" /\ s.typ = "ok"
Sound(s) == Accept(s) => /\ GenuineSignature(s) \/ s.prime = "same"
                         /\ s.kind # "sig" => s.tgt = "none"
                         /\ s.hdr = "none" /\ "cur" \in Known(s) /\ Quorum(s)
Complete(s) == (s = [Base(s.chain, s.era, s.pos, s.kind) EXCEPT !.len = s.len, !.loc = s.loc, !.com = s.com, !.n = s.n]) /\ s.com \in {"cur", "prev"} /\ s.n >= 342 => Accept(s)

Init == Start(Bases)
Next == Deviate(D, K)
Inv == Relevant(sc) => Sound(sc) /\ Complete(sc) /\ PrintT("@@" \o ToJson([s |-> sc, ok |-> Accept(sc)]))
=============================================================================
