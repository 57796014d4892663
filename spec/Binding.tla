------------------------------ MODULE Binding ------------------------------
(* The C interface all language bindings use: contexts are created, executed again and again while the host answers the listed requests, and freed.

   Gen enumerates histories: contexts of several kinds are created, executed, (partly) answered in any order, given up and freed at any point, interleaved.
   Val accepts exactly the recorded answers which this machine allows:
     - every execution answers with a well formed status
     - pending lists at least one request, all requests that are not answered yet and none which was answered
     - with honest answers a context ends with the true result, an error only if the host reported one
     - whatever happens to other contexts (the interface says to execute a context until it succeeds or fails, so it is not executed after that) *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Ctx, Kinds, Parts, MaxLen, TraceFile
ASSUME TraceFile = "" \/ TLCSet(42, JsonDeserialize(TraceFile))
Traces == TLCGet(42)
VARIABLES hist, alive, tr, steps, i, st, bad
genvars == <<hist, alive>>
Op(o, c, k) == [o |-> o, c |-> c, k |-> k]
InitGen == hist = <<>> /\ alive = {} /\ tr = 0 /\ steps = <<>> /\ i = 0 /\ st = <<>> /\ bad = ""
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
NextGen == /\ Len(hist) < MaxLen /\ UNCHANGED <<tr, steps, i, st, bad>>
           /\ \/ Ctx \ alive # {} /\ \E k \in Kinds : LET c == Least(Ctx \ alive) IN hist' = Append(hist, Op("n", c, k)) /\ alive' = alive \cup {c}
              \/ \E c \in alive : hist' = Append(hist, Op("e", c, "")) /\ UNCHANGED alive
              \/ \E c \in alive, k \in Parts : hist' = Append(hist, Op("a", c, k)) /\ UNCHANGED alive
              \/ \E c \in alive : Len(hist) > 3 /\ hist' = Append(hist, Op("x", c, "")) /\ UNCHANGED alive
              \/ \E c \in alive : Len(hist) > 2 /\ hist' = Append(hist, Op("f", c, "")) /\ alive' = alive \ {c}
InvGen == Len(hist) < MaxLen \/ PrintT("@@" \o ToJson([h |-> hist]))
---------------------------------------------------------------------------
Fresh == [open |-> {}, done |-> {}, fin |-> "", err |-> FALSE]
InitVal == /\ (LET T == Traces IN \E x \in DOMAIN T : tr = x /\ steps = T[x]) /\ i = 1 /\ st = [c \in Ctx |-> Fresh] /\ bad = "" /\ hist = <<>> /\ alive = {}
Range(s) == {s[j] : j \in DOMAIN s}
Why(s) == LET c == st[s.c] L == Range(s.l) IN
  CASE s.o = "e" /\ s.st \notin {"pending", "success", "error"} -> "the status is malformed"
    [] s.o = "e" /\ s.st = "pending" /\ L = {} -> "pending without any request"
    [] s.o = "e" /\ s.st = "pending" /\ ~(c.open \subseteq L) -> "a pending request is not listed"
    [] s.o = "e" /\ L \cap c.done # {} -> "a request that was answered is listed again"
    [] s.o = "e" /\ s.st = "success" /\ c.open # {} -> "success although requests are pending"
    [] s.o = "e" /\ s.st = "success" /\ s.t # 1 -> "wrong result"
    [] s.o = "e" /\ s.st = "error" /\ ~c.err -> "fails although all answers are honest"
    [] s.o = "e" /\ Len(s.l) # Cardinality(L) -> "a request is listed twice"
    [] s.o = "end" /\ c.fin = "" -> "the context never ends"
    [] OTHER -> ""
Apply(s) == st' = [st EXCEPT ![s.c] = CASE s.o = "n" -> Fresh
                                       [] s.o = "e" -> [@ EXCEPT !.open = IF s.st = "pending" THEN Range(s.l) ELSE {}, !.fin = IF s.st = "pending" THEN "" ELSE s.st]
                                       [] s.o = "a" -> [@ EXCEPT !.open = @ \ Range(s.l), !.done = @ \cup Range(s.l)]
                                       [] s.o = "x" -> [@ EXCEPT !.open = @ \ Range(s.l), !.done = @ \cup Range(s.l), !.err = @ \/ s.l # <<>>]
                                       [] s.o \in {"f", "end"} -> Fresh
                                       [] OTHER -> @]
NextVal == /\ steps # <<>> /\ bad = "" /\ UNCHANGED genvars
           /\ LET s == steps[1] w == Why(s) IN
                IF w = "" THEN Apply(s) /\ i' = i + 1 /\ steps' = Tail(steps) /\ UNCHANGED <<tr, bad>>
                ELSE bad' = w /\ UNCHANGED <<tr, steps, i, st>>
InvVal == /\ bad = "" \/ PrintT("@@" \o ToJson([tr |-> tr, i |-> i, why |-> bad]))
          /\ \A c \in Ctx : st[c].open \cap st[c].done = {}
=============================================================================
