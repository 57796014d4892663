-------------------------------- MODULE Subs --------------------------------
(* Subscriptions and filters of the TypeScript client: what is delivered while the chain grows, servers fail or lag behind, calls overlap and users unsubscribe.

   Gen enumerates histories: subscriptions (newHeads, logs) and filters (block, log, log from a given block) are created, timers fire, the pending calls
   to the chain are answered or fail in any order, the head advances or is seen too low, filters are polled (also twice at once), subscriptions end.
   Val accepts exactly the recorded deliveries which this machine allows:
     - the first successful look at the chain (or the given block) defines where a subscription starts
     - from there on every block (its header, hash or logs) is delivered exactly once and in order, whatever failed in between
     - nothing is delivered and no new poll starts after unsubscribing or uninstalling
     - in the end, once everything answers, everything up to the head has been delivered *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Subs, Kinds, Ops, MaxLen, TraceFile
ASSUME TraceFile = "" \/ TLCSet(42, JsonDeserialize(TraceFile))
Traces == TLCGet(42)
VARIABLES hist, made, tr, steps, i, st, bad
genvars == <<hist, made>>
Op(o, s, k) == [o |-> o, s |-> s, k |-> k]
InitGen == hist = <<>> /\ made = 0 /\ tr = 0 /\ steps = <<>> /\ i = 0 /\ st = <<>> /\ bad = ""
NextGen == /\ Len(hist) < MaxLen /\ UNCHANGED <<tr, steps, i, st, bad>>
           /\ \/ made < Cardinality(Subs) /\ \E k \in Kinds : hist' = Append(hist, Op("new", made + 1, k)) /\ made' = made + 1
              \/ made > 0 /\ \E o \in Ops \cap {"ans", "last", "err", "all", "tick", "adv", "adv3", "back", "two", "junk"} : hist' = Append(hist, Op(o, 0, "")) /\ UNCHANGED made
              \/ \E s \in 1..made, o \in Ops \cap {"chg", "chg2", "uns", "cross"} : hist' = Append(hist, Op(o, s, "")) /\ UNCHANGED made
InvGen == Len(hist) < MaxLen \/ PrintT("@@" \o ToJson([h |-> hist]))
---------------------------------------------------------------------------
Fresh == [k |-> "", alive |-> FALSE, last |-> -1, top |-> -1, id |-> "", junk |-> FALSE]
InitVal == /\ (LET T == Traces IN \E x \in DOMAIN T : tr = x /\ steps = T[x]) /\ i = 1 /\ st = [s \in Subs |-> Fresh] /\ bad = "" /\ hist = <<>> /\ made = 0
Filter(k) == k \in {"block", "log", "logfrom"}
Run(l, from) == \A j \in DOMAIN l : l[j] = from + j - 1
(* s.o: new, seen (an answer to eth_blockNumber for this subscription), junk (an answer that is no number), poll (such a call starts), msg, res, uns, end *)
Why(s) == LET c == st[s.s] IN
  CASE s.o = "new" /\ s.ok # 1 -> "can not be created"
    [] s.o = "new" /\ \E o \in Subs : st[o].id = s.id -> "an identifier is used twice"
    [] s.o = "msg" /\ s.l # <<>> /\ ~c.alive -> "delivered after the end"
    [] s.o = "res" /\ s.k = "late" /\ s.ok = 1 -> "an uninstalled filter answers"     \* a call which began before may still answer
    [] s.o = "poll" /\ ~c.alive -> "polls after the end"
    [] s.o = "res" /\ s.ok # 1 /\ c.alive /\ ~c.junk -> "a filter fails"
    [] s.o = "cross" /\ s.ok = 1 -> "ended as something else than it is"
    [] s.o \in {"msg", "res"} /\ s.l # <<>> /\ c.last < 0 -> "delivered before the chain was seen"
    [] s.o \in {"msg", "res"} /\ s.l # <<>> /\ s.l[1] <= c.last -> "delivered again"
    [] s.o \in {"msg", "res"} /\ s.l # <<>> /\ s.l[1] > c.last + 1 -> "skipped"
    [] s.o \in {"msg", "res"} /\ s.l # <<>> /\ ~Run(s.l, c.last + 1) -> "not in order"
    [] s.o = "uns" /\ (s.ok = 1) # c.alive -> "wrong answer to the end of a subscription"
    [] s.o = "end" /\ c.alive /\ c.last < s.h -> "not everything was delivered"
    [] OTHER -> ""
Apply(s) == st' = [st EXCEPT ![s.s] = CASE s.o = "new" -> [Fresh EXCEPT !.k = s.k, !.alive = TRUE, !.id = s.id, !.last = IF s.k = "logfrom" THEN s.h - 1 ELSE -1]
                                       [] s.o = "seen" -> [@ EXCEPT !.last = IF @ >= 0 THEN @ ELSE IF st[s.s].k = "newHeads" THEN s.h ELSE s.h - 1]
                                       [] s.o \in {"msg", "res"} /\ s.l # <<>> -> [@ EXCEPT !.last = s.l[Len(s.l)]]
                                       [] s.o = "junk" -> [@ EXCEPT !.junk = TRUE]
                                       [] s.o = "uns" -> [@ EXCEPT !.alive = FALSE]
                                       [] OTHER -> @]
NextVal == /\ steps # <<>> /\ bad = "" /\ UNCHANGED genvars
           /\ LET s == steps[1] w == Why(s) IN
                IF w = "" THEN Apply(s) /\ i' = i + 1 /\ steps' = Tail(steps) /\ UNCHANGED <<tr, bad>>
                ELSE bad' = w /\ UNCHANGED <<tr, steps, i, st>>
InvVal == /\ bad = "" \/ PrintT("@@" \o ToJson([tr |-> tr, i |-> i, why |-> bad]))
          /\ \A s \in Subs : st[s].last >= -1
=============================================================================
