------------------------------- MODULE OpSeq -------------------------------
(* Blocks of OP-Stack chains: a block is a payload that was signed by the sequencer of its chain, in the domain of this chain.

   World: the chains 10 ("op") and 8453 ("base"), each with its own sequencer, and a key of the adversary. A block proof is a term: who signed,
   for which domain, whether the payload is still the signed one, and how it is packed. All other parts of the proof are those of an honest
   prover for that payload. *)
EXTENDS Product, Json, Integers
CONSTANTS Methods, Chains, D, K

Base(m, c) == [method |-> m, chain |-> c,
   sig |-> "ok",      \* ok | chain (the other chain's sequencer) | evil | zero | r0 | flip | parity | v (recovery id out of range), high (s > n/2), v27: other forms of the same signature
   dom |-> "ok",      \* ok | chain (the id of the other chain) | zero (id 0) | nonzero (another domain) | none (only the payload is hashed)
   pay |-> "ok",      \* what was changed after signing: ok | root | state | last | trunc | ext | rootonly
   frame |-> "ok",    \* packing: ok | raw (not compressed) | rawas (not compressed, but marked as such) | nosize | huge | more | less | zero | trail | cut | garbage | empty | magic
   block |-> "ok",    \* ok | cross (the whole proof is the one of the other chain) | evil (the block of the adversary)
   ptype |-> "ok",    \* ok | other (a true proof, but of the kind for another method) | none
   ver |-> "ok"]      \* the request is marked for the chain type: ok | eth | zero

Bases == {Base(m, c) : m \in Methods, c \in Chains}
Other(c) == IF c = "op" THEN "base" ELSE "op"
Owner(s) == IF s.block = "cross" THEN Other(s.chain) ELSE s.chain     \* the chain the block belongs to
(* who signed (Key) which text (Text) *)
Key(s) == CASE s.sig \in {"ok", "high", "v27", "v"} -> IF s.block = "evil" THEN "evil" ELSE Owner(s)
            [] s.sig = "chain" -> Other(Owner(s))
            [] s.sig = "evil" -> "evil"
            [] OTHER -> "nobody"
DomainChain(s) == CASE s.dom = "ok" -> Owner(s) [] s.dom = "chain" -> Other(Owner(s)) [] OTHER -> "nowhere"
Packed(s) == s.frame \in {"ok", "raw", "nosize", "trail"}
Signed(s) == Key(s) = s.chain /\ DomainChain(s) = s.chain /\ s.pay = "ok"
Accept(s) == Packed(s) /\ Signed(s) /\ s.ptype = "ok" /\ s.ver = "ok"
(* what the user relies on: whatever is accepted was signed by the sequencer of the chain that was asked for, for this chain *)
Sound(s) == Accept(s) => Key(s) = s.chain /\ DomainChain(s) = s.chain /\ Owner(s) = s.chain /\ s.pay = "ok" /\ s.block # "evil"
(* with two deviations a term may be honest again: the other chain's block, signed by this chain's sequencer in this chain's domain, is not in the world *)
InWorld(s) == ~(s.block = "cross" /\ s.sig = "chain" /\ s.dom = "chain") /\ ~(s.block = "evil" /\ s.sig = "chain")
Honest(s) == s = [Base(s.method, s.chain) EXCEPT !.frame = s.frame] /\ s.frame \in {"ok", "raw"}
Verdict(s) == IF Honest(s) THEN "yes" ELSE IF Accept(s) THEN "any" ELSE "no"
Init == Start(Bases)
Next == Deviate(D, K)
Inv == InWorld(sc) => Sound(sc) /\ (Honest(sc) => Accept(sc)) /\ PrintT("@@" \o ToJson([s |-> sc, ok |-> Verdict(sc)]))
=============================================================================
