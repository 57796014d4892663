------------------------------ MODULE BindArgs ------------------------------
(* What the C interface of the bindings does with the strings it is given: arguments, method and trusted checkpoint.
   White space around the arguments means nothing; malformed arguments never lead to a result for something else; a trusted checkpoint that is not
   a 32 byte hex value is an error - it is never replaced by another starting point - and an empty one counts as none. *)
EXTENDS Product, Json
CONSTANTS Methods, D, K
Bases == {[m |-> m, args |-> "ok", cp |-> "none", client |-> c, chain |-> "main"] : m \in Methods, c \in {"have", "none"}}
Blank == {"ok", "lead", "trail", "nl", "spaced"}
GoodCp(s) == s.cp \in {"none", "null", "ok"}
Local(s) == s.m \in {"chainId", "sha3", "decode"}
Verdict(s) == IF ~GoodCp(s) THEN "no"
              ELSE IF s.args \notin Blank THEN "any"
              ELSE IF s.chain # "main" THEN IF Local(s) THEN "any" ELSE "no"
              ELSE IF Local(s) THEN "yes"
              ELSE IF s.client = "none" /\ s.cp # "ok" THEN "no"       \* (there is no checkpoint source in this environment)
              ELSE "yes"
Init == Start(Bases)
Next == Deviate(D, K)
Inv == (Verdict(sc) = "yes" => GoodCp(sc) /\ sc.args \in Blank) /\ PrintT("@@" \o ToJson([s |-> sc, ok |-> Verdict(sc)]))
=============================================================================
