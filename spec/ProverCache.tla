---------------------------- MODULE ProverCache ----------------------------
(* The cache that requests of one prover share (C4_PROVER_CACHE).

   A request (context) stores values under keys; when it ends, values with a lifetime move to the shared cache, where later requests find
   them.  Guarantees:
     - a value a context has seen stays readable until this context ends, whatever the others do (invalidate, clean up, end)
     - a lookup returns the context's own value, or the one valid (not expired, not invalidated) shared value of this key, or nothing
     - every value is freed exactly once; unused values that expired or were invalidated are freed by the next clean up
     - the shared cache keeps its size limit as far as its values are not in use
   Gen enumerates histories of operations.  Val reads the recorded answers of the real code (traces.json) and accepts exactly the traces
   this machine can produce; which unused values are evicted for space is left to the implementation and read from the trace. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Ctx, Keys, Sizes, Durs, Times, MaxLen, MaxMB, TraceFile
ASSUME TraceFile = "" \/ TLCSet(42, JsonDeserialize(TraceFile))
Traces == TLCGet(42)
VARIABLES hist, alive, nv,                        \* Gen
          tr, steps, i, now, cache, glob, freed, bad     \* Val
vars == <<hist, alive, nv, tr, steps, i, now, cache, glob, freed, bad>>
valvars == <<tr, steps, i, now, cache, glob, freed, bad>>
genvars == <<hist, alive, nv>>
---------------------------------------------------------------------------
Op(o, c, k, v, m, d) == [o |-> o, c |-> c, k |-> k, v |-> v, m |-> m, d |-> d]
InitGen == hist = <<>> /\ alive = {} /\ nv = 1 /\ tr = 0 /\ steps = <<>> /\ i = 0 /\ now = 0 /\ cache = <<>> /\ glob = {} /\ freed = {} /\ bad = ""
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Do(op) == hist' = Append(hist, op)
NextGen ==
  /\ Len(hist) < MaxLen /\ UNCHANGED valvars
  /\ \/ Ctx \ alive # {} /\ (LET c == Least(Ctx \ alive) IN Do(Op("n", c, "", 0, 0, 0)) /\ alive' = alive \cup {c}) /\ UNCHANGED nv
     \/ \E c \in alive : Do(Op("f", c, "", 0, 0, 0)) /\ alive' = alive \ {c} /\ UNCHANGED nv
     \/ \E c \in alive, k \in Keys : Do(Op("g", c, k, 0, 0, 0)) /\ UNCHANGED <<alive, nv>>
     \/ \E c \in alive, k \in Keys, m \in Sizes, d \in Durs : Do(Op("s", c, k, nv, m, d)) /\ nv' = nv + 1 /\ UNCHANGED alive
     \/ \E k \in Keys : nv > 1 /\ Do(Op("i", 0, k, 0, 0, 0)) /\ UNCHANGED <<alive, nv>>
     \/ nv > 1 /\ Do(Op("c", 0, "", 0, 0, 0)) /\ UNCHANGED <<alive, nv>>
     \/ \E d \in Times : nv > 1 /\ Do(Op("t", 0, "", 0, 0, d)) /\ UNCHANGED <<alive, nv>>
InvGen == Len(hist) < MaxLen \/ PrintT("@@" \o ToJson([h |-> hist]))
---------------------------------------------------------------------------
(* a local entry: k, v, own (stored by this context), d, m;  a shared entry: k, v, exp, ok, m *)
InitVal == /\ (LET T == Traces IN \E x \in DOMAIN T : tr = x /\ steps = T[x]) /\ i = 1 /\ now = 0 /\ cache = [c \in Ctx |-> <<>>] /\ glob = {} /\ freed = {} /\ bad = ""
           /\ hist = <<>> /\ alive = {} /\ nv = 0
Range(s) == {s[j] : j \in DOMAIN s}
Held(ca) == UNION {{e.v : e \in Range(ca[c])} : c \in Ctx}
Mine(ca, c, k) == SelectSeq(ca[c], LAMBDA e : e.k = k)
Valid(g, k) == {e \in g : e.k = k /\ e.ok /\ e.exp >= now}
RECURSIVE SumOf(_)
SumOf(S) == IF S = {} THEN 0 ELSE LET e == CHOOSE x \in S : TRUE IN e.m + SumOf(S \ {e})
(* what the shared cache receives when a context ends: newest value per key, if the key has no valid shared value *)
RECURSIVE Moved(_, _, _)
Moved(l, g, F) == IF l = <<>> THEN {}
  ELSE LET e == Head(l) rest == Moved(Tail(l), g, F) IN
       IF e.own /\ e.d > 0 /\ e.v \notin F /\ Valid(g, e.k) = {} THEN LET ne == [k |-> e.k, v |-> e.v, exp |-> now + e.d, ok |-> TRUE, m |-> e.m] IN {ne} \cup Moved(Tail(l), g \cup {ne}, F)
       ELSE rest
Why(s) ==
  LET F == Range(s.f)
      used == Held(cache)
      usedAfter == IF s.o = "f" THEN Held([cache EXCEPT ![s.c] = <<>>]) ELSE used
      shared == {e.v : e \in glob}
      own == IF s.o = "f" THEN {e.v : e \in {x \in Range(cache[s.c]) : x.own}} ELSE {}
      moved == IF s.o = "f" THEN Moved(cache[s.c], {e \in glob : e.v \notin F}, F) ELSE {}
      g2 == {e \in glob : e.v \notin F} \cup moved
      g3 == IF s.o = "i" THEN {IF e.k = s.k /\ e.ok THEN [e EXCEPT !.ok = FALSE] ELSE e : e \in g2} ELSE g2
      mustFree == IF s.o = "c" THEN {e.v : e \in {x \in glob : x.v \notin used /\ (~x.ok \/ x.exp < now)}} ELSE {}
      wanted == {e.v : e \in IF s.o = "f" THEN Moved(cache[s.c], {x \in glob : x.v \notin (F \cap shared)}, {}) ELSE {}}    \* without pressure
      total == SumOf(glob) + SumOf({x \in IF s.o = "f" THEN Range(cache[s.c]) ELSE {} : x.own /\ x.d > 0})
  IN CASE s.r = -1 -> "a value changed while it was in use"
       [] F \cap freed # {} \/ Cardinality(F) # Len(s.f) -> "a value is freed twice"
       [] F \cap usedAfter # {} -> "a value is freed while a context uses it"
       [] ~(F \subseteq (shared \cup own)) -> "an unknown value is freed"
       [] s.o = "g" /\ (LET m == Mine(cache, s.c, s.k) v == Valid(glob, s.k) IN
             IF m # <<>> THEN s.r # m[1].v ELSE IF v = {} THEN s.r # 0 ELSE s.r \notin {e.v : e \in v}) -> "a lookup has the wrong result"
       [] s.o = "f" /\ ~(own \subseteq ({e.v : e \in moved} \cup F)) -> "a value is lost when its context ends"
       [] s.o = "f" /\ total <= MaxMB /\ {e.v : e \in moved} # wanted -> "a value is not shared although there is room"
       [] (s.o = "c" \/ moved # {}) /\ SumOf({x \in g3 : x.v \notin used}) > MaxMB -> "the values that are not in use exceed the size limit"
       [] ~(mustFree \subseteq F) -> "a clean up leaves unused values that expired or were invalidated"
       [] s.n # Cardinality(g3) \/ s.mb # SumOf(g3) -> "wrong number of entries or size"
       [] Len(steps) = 1 /\ s.n # 0 -> "values are never removed"
       [] OTHER -> ""
Apply(s) ==
  LET F == Range(s.f)
      moved == IF s.o = "f" THEN Moved(cache[s.c], {e \in glob : e.v \notin F}, F) ELSE {}
      g2 == {e \in glob : e.v \notin F} \cup moved
      hit == IF s.o = "g" /\ s.r # 0 /\ Mine(cache, s.c, s.k) = <<>> THEN <<[k |-> s.k, v |-> s.r, own |-> FALSE, d |-> 0, m |-> 0]>> ELSE <<>>
  IN /\ glob' = IF s.o = "i" THEN {IF e.k = s.k /\ e.ok THEN [e EXCEPT !.ok = FALSE] ELSE e : e \in g2} ELSE g2
     /\ cache' = CASE s.o = "f" -> [cache EXCEPT ![s.c] = <<>>]
                   [] s.o = "g" -> [cache EXCEPT ![s.c] = hit \o @]
                   [] s.o = "s" -> [cache EXCEPT ![s.c] = <<[k |-> s.k, v |-> s.v, own |-> TRUE, d |-> s.d, m |-> s.m]>> \o @]
                   [] OTHER -> cache
     /\ freed' = freed \cup F
     /\ now' = IF s.o = "t" THEN now + s.d ELSE now
NextVal == /\ steps # <<>> /\ bad = ""
           /\ LET s == steps[1] w == Why(s) IN
                IF w = "" THEN Apply(s) /\ i' = i + 1 /\ steps' = Tail(steps) /\ UNCHANGED <<tr, bad>> /\ UNCHANGED genvars
                ELSE bad' = w /\ UNCHANGED <<tr, steps, i, now, cache, glob, freed>> /\ UNCHANGED genvars
InvVal == /\ bad = "" \/ PrintT("@@" \o ToJson([tr |-> tr, i |-> i, why |-> bad]))
          /\ Held(cache) \cap freed = {} /\ \A c \in Ctx : Len(cache[c]) < 100
=============================================================================
