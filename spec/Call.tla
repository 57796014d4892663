-------------------------------- MODULE Call --------------------------------
(* What a contract call returns (eth_call) and which events it emits (colibri_simulateTransaction), and when a message of the prover proves it.

   A behaviour is one execution: frames are entered by the four kinds of calls and left by return, stop, revert or failure; a frame that reverts or fails
   undoes what it and all its inner frames wrote and emitted.  The instructions chosen on the way are the program, what is read is the observation that the
   program returns.  State overrides (balance, code, whole state or some slots) replace what is known of an account before the call.
   A deviation is applied to the message that contains exactly what the execution needed: something is missing, foreign, or altered.
   Every result that is accepted equals the one of this machine; a message with everything needed is accepted. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Keys, Vals, Kinds, Targets, Peeks, Ends, Overs, Devs, MaxOps, MaxDepth, Simulate
VARIABLES ov, dev, store, logs, stack, progs, ops, used, writes, failed, out
vars == <<ov, dev, store, logs, stack, progs, ops, used, writes, failed, out>>
Contracts == {"A", "B"}
Real(a, k) == IF k = "k1" THEN (IF a = "A" THEN 11 ELSE 21) ELSE IF k = "k2" THEN 0 ELSE (IF a = "A" THEN 13 ELSE 23)
Over(o, a, k) == CASE o[a] \in {"state", "statecode"} -> (IF k = "k1" THEN 77 ELSE 0)
                   [] o[a] = "diff" -> (IF k = "k1" THEN 78 ELSE Real(a, k))
                   [] o[a] = "empty" -> 0
                   [] OTHER -> Real(a, k)
Initial(o) == [a \in Contracts |-> [k \in Keys |-> Over(o, a, k)]]
Obs(t, v, a) == [t |-> t, v |-> v, a |-> a]
Frame(id, self, code, st) == [id |-> id, self |-> self, code |-> code, stat |-> st, prog |-> <<>>, obs |-> <<>>, s0 |-> store, l0 |-> Len(logs), kind |-> ""]
Init == /\ ov \in [Contracts -> Overs] /\ dev \in Devs
        /\ store = Initial(ov) /\ logs = <<>> /\ stack = <<[id |-> 1, self |-> "A", code |-> "A", stat |-> FALSE, prog |-> <<>>, obs |-> <<>>, s0 |-> Initial(ov), l0 |-> 0, kind |-> ""]>>
        /\ progs = <<>> /\ ops = 0 /\ used = {<<"code", "A", "">>} /\ writes = <<>> /\ failed = {} /\ out = [st |-> "run", obs |-> <<>>]
Top == stack[Len(stack)]
Running == out.st = "run"
Path == {stack[i].id : i \in DOMAIN stack}
Op(o, k, v, a) == [o |-> o, k |-> k, v |-> v, a |-> a, kind |-> "", id |-> 0, words |-> 0]
With(op, obs) == stack' = [stack EXCEPT ![Len(stack)] = [@ EXCEPT !.prog = Append(@, op), !.obs = @ \o obs]]
Zeros(n) == [i \in 1..n |-> Obs("int", 0, "")]
Fails(e) == e \in {"rev", "inv", "viol"}
(* the end of the current frame f (whose last instructions are in f.prog) *)
Leave(f, e) ==
  LET good == ~Fails(e)
      ret == IF e \in {"ret", "rev"} THEN f.obs ELSE <<>>
      op == [Op("call", "", 0, f.code) EXCEPT !.kind = f.kind, !.id = f.id, !.words = Len(f.obs)]
  IN /\ progs' = Append(progs, [id |-> f.id, code |-> f.code, prog |-> f.prog, end |-> e])
     /\ store' = IF good THEN store ELSE f.s0
     /\ logs' = IF good THEN logs ELSE SubSeq(logs, 1, f.l0)
     /\ failed' = IF good THEN failed ELSE failed \cup {f.id}
     /\ IF Len(stack) = 1 THEN stack' = <<>> /\ out' = [st |-> IF good THEN "ok" ELSE "fail", obs |-> ret]
        ELSE /\ out' = out
             /\ stack' = [SubSeq(stack, 1, Len(stack) - 1) EXCEPT ![Len(stack) - 1] = [@ EXCEPT !.prog = Append(@, op),
                            !.obs = @ \o <<Obs("int", IF good THEN 1 ELSE 0, "")>> \o (IF e \in {"ret", "rev"} THEN f.obs ELSE Zeros(Len(f.obs)))]]
Violates(op) == Leave([Top EXCEPT !.prog = Append(@, op)], "viol") /\ UNCHANGED <<used, writes>>
Cost(n) == ops' = ops + n /\ ops < MaxOps /\ Running /\ UNCHANGED <<ov, dev>>
Sload == \E k \in Keys : /\ Cost(1) /\ With(Op("sload", k, 0, ""), <<Obs("int", store[Top.self][k], "")>>)
                         /\ used' = used \cup {<<"key", Top.self, k>>} /\ UNCHANGED <<store, logs, progs, writes, failed, out>>
Sstore == \E k \in Keys, v \in Vals : /\ Cost(1)
            /\ IF Top.stat THEN Violates(Op("sstore", k, v, ""))
               ELSE /\ With(Op("sstore", k, v, ""), <<>>) /\ store' = [store EXCEPT ![Top.self][k] = v] /\ writes' = Append(writes, [p |-> Path, a |-> Top.self, k |-> k, v |-> v])
                    /\ used' = used \cup {<<"key", Top.self, k>>} /\ UNCHANGED <<logs, progs, failed, out>>
Emit == "log" \in Peeks /\ Cost(1) /\ LET t == ops + 1 IN
          IF Top.stat THEN Violates(Op("log", "", t, ""))
          ELSE With(Op("log", "", t, ""), <<>>) /\ logs' = Append(logs, [a |-> Top.self, v |-> t, p |-> Path]) /\ UNCHANGED <<store, progs, used, writes, failed, out>>
Peek == \E p \in Peeks \cap {"bal", "size", "hash", "copy", "copyend"}, a \in Targets : /\ Cost(1) /\ a # "P"
            /\ With(Op(p, "", 0, a), <<Obs(p, 0, a)>>) /\ used' = used \cup {<<IF p = "bal" THEN "acc" ELSE IF p = "hash" THEN "hash" ELSE "code", a, "">>} /\ UNCHANGED <<store, logs, progs, writes, failed, out>>
Who == \E p \in Peeks \cap {"self", "caller"} : Cost(1) /\ p = "self" /\ With(Op(p, "", 0, ""), <<Obs("self", 0, Top.self)>>) /\ UNCHANGED <<store, logs, progs, used, writes, failed, out>>
NextId == Cardinality({progs[i].id : i \in DOMAIN progs}) + Len(stack) + 1
(* a call of an account without code succeeds and returns nothing; P is a precompiled contract that returns its input *)
Plain == \E c \in Kinds, a \in Targets \ Contracts : /\ Cost(1)
            /\ With([Op("call", "", 0, a) EXCEPT !.kind = c, !.id = 999, !.words = IF a = "P" THEN 1 ELSE 0], <<Obs("int", 1, "")>> \o (IF a = "P" THEN <<Obs("int", 999, "")>> ELSE <<>>))
            /\ used' = (IF a = "P" THEN used ELSE used \cup {<<"code", a, "">>}) /\ UNCHANGED <<store, logs, progs, writes, failed, out>>
Enter == \E c \in Kinds, a \in Targets \cap Contracts : /\ Cost(1) /\ Len(stack) < MaxDepth
            /\ stack' = Append(stack, [Frame(NextId, IF c \in {"call", "scall"} THEN a ELSE Top.self, a, Top.stat \/ c = "scall") EXCEPT !.kind = c])
            /\ used' = used \cup {<<"code", a, "">>} /\ UNCHANGED <<store, logs, progs, writes, failed, out>>
End == \E e \in Ends : Running /\ Len(Top.prog) > 0 /\ Leave(Top, e) /\ UNCHANGED <<ov, dev, ops, used, writes>>
Finish == Running /\ ops >= MaxOps /\ "ret" \notin Ends /\ Leave(Top, "ret") /\ UNCHANGED <<ov, dev, ops, used, writes>>
Next == Sload \/ Sstore \/ Emit \/ Peek \/ Who \/ Plain \/ Enter \/ (IF Simulate /\ Len(stack) = 1 /\ ops < MaxOps THEN FALSE ELSE End) \/ Finish
---------------------------------------------------------------------------
(* independently of snapshots: what counts is what was written under frames that did not fail *)
RECURSIVE Last(_, _, _)
Last(w, a, k) == IF w = <<>> THEN Over(ov, a, k) ELSE LET x == w[Len(w)] IN IF x.a = a /\ x.k = k /\ x.p \cap failed = {} THEN x.v ELSE Last(SubSeq(w, 1, Len(w) - 1), a, k)
Journal == \A a \in Contracts, k \in Keys : store[a][k] = Last(writes, a, k)
Events == \A i \in DOMAIN logs : logs[i].p \cap failed = {}
Ordered == \A i, j \in DOMAIN logs : i < j => logs[i].v < logs[j].v
(* The message may come from the real prover, which only knows what an honest node tells about the call: the state before it
   (trace), or the accounts and slots it touches (list); some nodes do not list the called account itself unless its storage is
   touched (geth). Codes are part of the message or asked for by the verifier (ask). "mode|request|kind" is a node that answers
   this request wrongly: then a result need not appear, but it is still the one of this machine. *)
Provers == {"trace", "traceask", "list", "listask", "geth", "gethask"}
Told(d) == IF d \in {"geth", "gethask"} THEN {u \in used : u[2] # "A"} \cup {u \in used : u[1] = "key"} ELSE used
Complete == dev \in Provers => used \subseteq Told(dev) \cup {<<"code", "A", "">>, <<"acc", "A", "">>, <<"hash", "A", "">>}
(* what a verifier may do with the message *)
Verdict == IF out.st # "ok" \/ dev \in {"wrongdata", "longdata", "reqblk", "root", "sig"} THEN "no"
           ELSE IF dev \in {"none", "none2", "data", "fetch", "keepcode"} \cup Provers THEN "yes" ELSE "any"
Inv == /\ Journal /\ Events /\ Ordered /\ Complete
       /\ (~Running => PrintT("@@" \o ToJson([ok |-> Verdict, ov |-> ov, dev |-> dev, progs |-> progs, used |-> used, res |-> out.obs, st |-> out.st, logs |-> [i \in DOMAIN logs |-> <<logs[i].a, logs[i].v>>]])))
=============================================================================
