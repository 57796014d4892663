---------------------------- MODULE LightClient ----------------------------
(* The trust state of the light client of each chain and every way to change it:
   verifying a header (which may fetch a bootstrap, light client updates or a finality confirmation from untrusted
   sources), sync data pushed along with a proof, crashes while the state is written, and restarts.

   A committee is <<kind, period>>: <<"T", p>> is the genuine sync committee of period p, <<"E", p>> is one the adversary made up.
   A signature is modelled by its signer, the signed domain and its participation (ideal signatures). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, FiniteSetsExt

CONSTANTS Chains,      \* set of chain names
          Gap,         \* [chain -> number of periods covered by the weak subjectivity period]
          M,           \* number of sync states the host allows
          Per,         \* periods of headers to verify
          BP,          \* period of the good checkpoint
          Signers,     \* kinds of signers of the header
          NetKinds,    \* kinds of answers of the beacon node for updates: set of <<kind, position>>
          BootKinds, CpzKinds, WspKinds, CpKinds,
          PushKinds,   \* kinds of pushed sync data
          CrashOn,     \* BOOLEAN
          MaxSteps, Init0  \* initial states to start from: set of [chain -> state]

VARIABLES st, hist

T(p) == <<"T", p>>
E(p) == <<"E", p>>
NoCom == [x \in {} |-> T(0)]
Empty == [mode |-> "empty", cp |-> 0, com |-> NoCom]
Periods(S) == IF S.mode = "per" THEN DOMAIN S.com ELSE {}
Limit == IF M > 8 THEN 8 ELSE IF M = 0 THEN 3 ELSE M

------------------------------------------------------------------------------
(* storing a committee: the oldest and the newest periods are kept as long as there is room for three *)
Without(f, p) == [q \in DOMAIN f \ {p} |-> f[q]]
RECURSIVE Evict(_)
Evict(f) == LET d == DOMAIN f IN
            IF Cardinality(d) < Limit THEN f
            ELSE IF Cardinality(d) > 2 THEN Evict(Without(f, Min(d \ {Min(d)})))
            ELSE Evict(Without(f, Min(d)))
StoreS(S, p, c) == IF p \in Periods(S) THEN [S EXCEPT !.com[p] = c]
                   ELSE [mode |-> "per", cp |-> 0, com |-> Evict(IF S.mode = "per" THEN S.com ELSE NoCom) @@ (p :> c)]

(* a run: ok, the state, the trail of persistent states, and the sources used *)
Run(S) == [ok |-> TRUE, S |-> S, tr |-> <<S>>, used |-> {}]
Fail(r) == [r EXCEPT !.ok = FALSE]
Put(r, S) == [r EXCEPT !.S = S, !.tr = Append(@, S)]
Use(r, x) == [r EXCEPT !.used = @ \cup {x}]

------------------------------------------------------------------------------
(* light client updates *)
Upd(q, signer, next) == [att |-> q, signer |-> signer, next |-> next, part |-> "full", dom |-> TRUE, nextok |-> TRUE, finok |-> TRUE, wf |-> TRUE, fin |-> "canon"]
Good(q) == Upd(q, T(q), T(q + 1))
Variant(k, q) == CASE k = "low"   -> [Good(q) EXCEPT !.part = "low"]
                   [] k = "evil"  -> Upd(q, E(q), E(q + 1))
                   (* another committee: all keys, with an all-zero or the finality branch, one key, the last key, the aggregate key *)
                   [] k \in {"swap", "swapz", "swapf", "swap1", "swapl"} -> [Good(q) EXCEPT !.next = E(q + 1), !.nextok = FALSE]
                   [] k \in {"branch", "branch0", "branchl", "agg"} -> [Good(q) EXCEPT !.nextok = FALSE]
                   (* the finalized header: branch, all zero, slot, body *)
                   [] k \in {"badfin", "finz", "finslot", "finbody", "fin0", "finl"} -> [Good(q) EXCEPT !.finok = FALSE]
                   (* signed for another chain, without a signature, attested header changed after signing *)
                   [] k \in {"other", "zsig", "infsig", "attslot", "attprop", "attbody", "attpar"} -> [Good(q) EXCEPT !.dom = FALSE]
                   (* the attested state was replaced (by one with another committee) after signing *)
                   [] k = "attstate" -> [Good(q) EXCEPT !.dom = FALSE, !.next = E(q + 1)]
                   [] k = "prev"  -> Upd(q, T(q - 1), T(q + 1))
                   [] k = "next"  -> Upd(q, T(q + 1), T(q + 1))
                   (* the first or last slots of the period: a finalized block of the period before, a signature with the fork of the slot after the attested one *)
                   [] k \in {"early", "first", "late"} -> Good(q)
                   [] k = "trunc" -> [Good(q) EXCEPT !.wf = FALSE]
                   [] k = "badssz" -> [Good(q) EXCEPT !.wf = FALSE]
                   [] OTHER -> Good(q)
GoodSeq(a, b) == [i \in 1..(b - a + 1) |-> Good(a + i - 1)]
PosIx(pos, n) == IF pos = "first" THEN 1 ELSE n
(* the answer for the range a..b *)
Updates(k, pos, a, b) ==
  LET n == b - a + 1 IN
  CASE k \in {"ok", "lh"} -> GoodSeq(a, b)
    [] k = "skip" -> IF pos = "first" THEN GoodSeq(a + 1, b) ELSE GoodSeq(a, b - 1)
    [] k = "dup" -> <<Good(a)>> \o GoodSeq(a, b)
    [] k = "rev" -> Reverse(GoodSeq(a, b))
    [] k = "extra" -> GoodSeq(a, b + 1)
    [] k \in {"empty", "json", "junk"} -> <<>>
    [] k = "evil" -> [i \in 1..n |-> IF i < PosIx(pos, n) THEN Good(a + i - 1) ELSE Variant("evil", a + i - 1)]
    [] k \in {"lrange", "lrbogus"} -> (* forged history, signed with leaked keys of the old committee *)
         [i \in 1..n |-> [Upd(a + i - 1, IF i = 1 THEN T(a) ELSE E(a + i - 1), E(a + i)) EXCEPT !.fin = "forged"]]
         \o (IF k = "lrbogus" THEN <<Variant("other", b + 1)>> ELSE <<>>)
    (* the forged history starts with, or is followed by, a finalized block of the real chain *)
    [] k \in {"lrfirst", "lrtail"} ->
         [i \in 1..n |-> [Upd(a + i - 1, IF i = 1 THEN T(a) ELSE E(a + i - 1), E(a + i)) EXCEPT !.fin = IF k = "lrfirst" /\ i = 1 /\ n > 1 THEN "canon" ELSE "forged"]]
         \o (IF k = "lrtail" /\ n > 1 THEN <<Good(a)>> ELSE <<>>)
    [] OTHER -> [i \in 1..n |-> IF i = PosIx(pos, n) THEN Variant(k, a + i - 1) ELSE Good(a + i - 1)]
(* the weak subjectivity check looks at the newest finalized header of what can be parsed *)
RECURSIVE Seen(_)
Seen(us) == IF us = <<>> \/ ~Head(us).wf THEN <<>> ELSE <<Head(us)>> \o Seen(Tail(us))
Newest(us) == CHOOSE u \in Range(us) : \A v \in Range(us) : v.att <= u.att
Canon(us) == Newest(Seen(us)).fin = "canon"
Parsable(k) == k \notin {"empty", "json", "junk", "lh"}

Lower(S, p) == {q \in Periods(S) : q < p}
RECURSIVE GetVal(_, _, _, _, _), Apply(_, _, _, _, _), ApplyAll(_, _, _, _, _)

GetVal(r, p, c, env, syncing) ==
  LET S == r.S IN
  IF ~r.ok \/ p \in Periods(S) THEN r
  ELSE IF syncing THEN Fail(r)
  ELSE IF S.mode = "empty" THEN IF env.cpz = "ok" THEN GetVal(Put(Use(r, "cpz"), [Empty EXCEPT !.mode = "cp", !.cp = BP]), p, c, env, syncing) ELSE Fail(Use(r, "cpz"))
  ELSE IF S.mode = "cp" THEN IF env.boot = "ok" THEN GetVal(Put(Use(r, "boot"), StoreS(S, S.cp, T(S.cp))), p, c, env, syncing) ELSE Fail(Use(r, "boot"))
  ELSE IF Lower(S, p) = {} THEN Fail(r)
  ELSE IF Max(Periods(S)) = p + 1 THEN Fail(Use(r, "net"))
  ELSE LET a == Max(Lower(S, p))
           us == Updates(env.net, env.pos, a, p - 1)
           far == p - Max(Periods(S)) > Gap[c]
           r1 == Use(r, "net") IN
       IF env.net = "down" THEN Fail(r1)
       ELSE IF far /\ (Seen(us) = <<>> \/ ~Parsable(env.net)) THEN Fail(r1)
       ELSE IF far /\ env.wsp # "canon" /\ env.wsp # "wrong" THEN Fail(Use(r1, "wsp"))
       ELSE IF far /\ (env.wsp = "wrong" \/ ~Canon(us)) THEN Fail(Put(Use(r1, "wsp"), Empty))
       ELSE LET r2 == IF env.net \in {"json", "junk"} THEN Fail(r1) ELSE ApplyAll(IF far THEN Use(r1, "wsp") ELSE r1, us, c, env, TRUE) IN
            IF ~r2.ok THEN (IF far THEN Put(r2, Empty) ELSE r2)
            ELSE IF p \in Periods(r2.S) THEN r2 ELSE Fail(r2)

Apply(r, u, c, env, syncing) ==
  IF ~r.ok THEN r
  ELSE IF ~u.wf \/ u.part = "low" THEN Fail(r)
  ELSE LET r1 == GetVal(r, u.att, c, env, syncing) IN
       IF ~r1.ok THEN r1
       ELSE LET direct == u.dom /\ u.signer = r1.S.com[u.att]
                r2 == IF direct THEN r1 ELSE GetVal(r1, u.att - 1, c, env, syncing) IN
            IF ~r2.ok THEN r2
            ELSE IF ~direct /\ ~(u.dom /\ u.signer = r2.S.com[u.att - 1]) THEN Fail(r2)
            ELSE IF ~u.nextok \/ ~u.finok THEN Fail(r2)
            ELSE Put(r2, StoreS(r2.S, u.att + 1, u.next))
ApplyAll(r, us, c, env, syncing) == IF us = <<>> \/ ~r.ok THEN r ELSE ApplyAll(Apply(r, Head(us), c, env, syncing), Tail(us), c, env, syncing)

(* sync data carried by a proof *)
NoPush == [kind |-> "none", boot |-> "none", a |-> 0, b |-> 0]
Push(r, c, env, ps) ==
  IF ps = NoPush THEN r
  ELSE LET S == r.S
           r1 == IF ps.boot = "none" THEN r
                 ELSE IF S.mode = "empty" THEN Fail(r)
                 ELSE IF S.mode = "per" THEN r
                 ELSE IF ps.boot = "ok" THEN Put(r, StoreS(S, S.cp, T(S.cp))) ELSE Fail(r)
       IN  IF ps.kind = "none" THEN r1 ELSE ApplyAll(r1, Updates(ps.kind, "last", ps.a, ps.b), c, env, FALSE)

(* verification of a header of period p *)
Signer(s, p) == CASE s = "T" -> T(p) [] s = "P" -> T(p - 1) [] s = "N" -> T(p + 1) [] s = "X" -> T(p) [] s = "L" -> T(p) [] OTHER -> E(p)
Check(r, c, p, s, env) ==
  IF ~r.ok THEN r
  ELSE IF s = "L" THEN Fail(r)
  ELSE LET r1 == GetVal(r, p, c, env, FALSE) IN
       IF ~r1.ok THEN r1
       ELSE IF s # "X" /\ Signer(s, p) = r1.S.com[p] THEN r1
       ELSE LET r2 == GetVal(r1, p - 1, c, env, FALSE) IN
            IF r2.ok /\ s # "X" /\ Signer(s, p) = r2.S.com[p - 1] THEN r2 ELSE Fail(r2)
Start(S, cp) == IF cp = "none" \/ S.mode # "empty" THEN Run(S) ELSE Put(Run(S), [Empty EXCEPT !.mode = "cp", !.cp = IF cp = "good" THEN BP ELSE BP + 1])
Verify(c, p, s, env, ps, cp) == Check(Push(Start(st[c], cp), c, env, ps), c, p, s, env)

------------------------------------------------------------------------------
OkEnv == [net |-> "ok", pos |-> "first", boot |-> "ok", cpz |-> "ok", wsp |-> "canon"]
Dead == [net |-> "down", pos |-> "first", boot |-> "down", cpz |-> "down", wsp |-> "down"]
Envs == {OkEnv} \cup {[OkEnv EXCEPT !.net = k[1], !.pos = k[2]] : k \in NetKinds} \cup {[OkEnv EXCEPT !.boot = k] : k \in BootKinds}
        \cup {[OkEnv EXCEPT !.cpz = k] : k \in CpzKinds} \cup {[OkEnv EXCEPT !.wsp = k] : k \in WspKinds}
Differs(env) == {d \in {"net", "boot", "cpz", "wsp"} : env[d] # OkEnv[d]}
(* the honest majority assumption: keys of a committee are only abused after the weak subjectivity period *)
Allowed(c, p, env, r) == env.net \in {"lrange", "lrbogus", "lrfirst", "lrtail"} => "wsp" \in r.used

Trail(r) == {r.tr[i] : i \in 1..Len(r.tr)}
PJson(S) == [mode |-> S.mode, cp |-> S.cp, com |-> {<<p, S.com[p][1], S.com[p][2]>> : p \in DOMAIN S.com}]
Event(a, c, p, s, env, ps, cp, r) == [a |-> a, c |-> c, p |-> p, s |-> s, env |-> env, ps |-> ps, cp |-> cp, pcp |-> Start(st[c], cp).S.cp, ok |-> r.ok, used |-> r.used,
                                      tr |-> IF a = "crash" THEN [i \in 1..Len(r.tr) |-> PJson(r.tr[i])] ELSE <<>>]
Pushes == {NoPush} \cup PushKinds

Step(c, p, s, env, ps, cp) ==
  /\ ps = NoPush \/ s = "T"
  /\ cp = "none" \/ (st[c].mode \in {"empty", "per"} /\ s = "T")
  /\ LET r == Verify(c, p, s, env, ps, cp) IN
     /\ Allowed(c, p, env, r)
     /\ env # OkEnv /\ env # Dead => Differs(env) \subseteq r.used
     /\ st' = [st EXCEPT ![c] = r.S]
     /\ hist' = Append(hist, Event("verify", c, p, s, env, ps, cp, r))
(* the host loses power while the state is written: what is kept is one of the states the run went through *)
CrashStep(c, p, s, env, ps, cp) ==
  /\ CrashOn
  /\ s = "T" /\ env \in {OkEnv} \cup {[OkEnv EXCEPT !.net = k[1], !.pos = k[2]] : k \in NetKinds \cap {<<"evil", "last">>, <<"low", "last">>, <<"lrange", "first">>}} \cup {[OkEnv EXCEPT !.wsp = "wrong"]}
  /\ LET r == Verify(c, p, s, env, ps, cp) IN
     /\ Allowed(c, p, env, r)
     /\ env # OkEnv => Differs(env) \subseteq r.used
     /\ Len(r.tr) > 1
     /\ st' \in {[st EXCEPT ![c] = S] : S \in Trail(r)}
     /\ hist' = Append(hist, Event("crash", c, p, s, env, ps, cp, r) @@ [kept |-> PJson(st'[c])])
(* the storage refuses writes (full disk, read-only medium): only what is already known can be used *)
ReadOnlyStep(c, p, s, cp) ==
  /\ CrashOn
  /\ LET r == Verify(c, p, s, OkEnv, NoPush, cp) IN
     /\ UNCHANGED st
     /\ hist' = Append(hist, Event("readonly", c, p, s, OkEnv, NoPush, cp, [r EXCEPT !.ok = r.ok /\ Len(r.tr) = 1]))
Restart == /\ hist # <<>> /\ hist[Len(hist)].a = "verify"
           /\ UNCHANGED st /\ hist' = Append(hist, [a |-> "restart"])

Init == st \in Init0 /\ hist = <<[a |-> "init", st |-> [c \in Chains |-> PJson(st[c])]]>>
Next == /\ Len(hist) <= MaxSteps
        /\ \/ \E c \in Chains, p \in Per, s \in Signers, env \in Envs \cup {Dead}, ps \in Pushes, cp \in CpKinds : Step(c, p, s, env, ps, cp) \/ CrashStep(c, p, s, env, ps, cp)
           \/ \E c \in Chains, p \in Per, s \in Signers, cp \in CpKinds : ReadOnlyStep(c, p, s, cp)
           \/ Restart
Spec == Init /\ [][Next]_<<st, hist>>
View == st
LastEv == hist'[Len(hist')]
Emit == LastEv.a = "restart" \/ PrintT("@@" \o ToJson([h |-> hist', pre |-> [c \in Chains |-> PJson(st[c])], post |-> [c \in Chains |-> PJson(st'[c])]]))

------------------------------------------------------------------------------
(* what a user relies on *)
Genuine == \A c \in Chains : \A p \in DOMAIN st[c].com : st[c].com[p] = T(p)
Bounded == \A c \in Chains : Cardinality(DOMAIN st[c].com) <= Limit
(* one chain never changes another one's trust state; the newest known period is never forgotten unless the state is dropped;
   with room for three the oldest one isn't either; a failed verification without a source never changes the known periods *)
Isolated == [][\A c \in Chains : st'[c] # st[c] => hist'[Len(hist')].c = c]_<<st, hist>>
KeepNewest == [][\A c \in Chains : LET o == Periods(st[c]) n == Periods(st'[c]) IN o # {} /\ n # {} => Max(n) >= Max(o)]_<<st, hist>>
KeepOldest == [][\A c \in Chains : LET o == Periods(st[c]) n == Periods(st'[c]) IN Limit >= 3 /\ o # {} /\ n # {} => Min(n) <= Min(o)]_<<st, hist>>
OnlyGenuineAccepted == [][LastEv.a = "verify" /\ LastEv.ok => LastEv.s \in {"T", "P"}]_<<st, hist>>
AnchorOnce == [][\A c \in Chains : st[c].mode = "cp" /\ st'[c].mode = "cp" => st'[c].cp = st[c].cp]_<<st, hist>>
(* a genuine header of a reachable period verifies once the sources answer honestly: no stuck state *)
NotStuck == \A c \in Chains : LET n == IF st[c].mode = "per" THEN Max(Periods(st[c])) ELSE IF st[c].mode = "cp" THEN st[c].cp ELSE BP IN
              \A p \in n..(n + 2) : Check(Run(st[c]), c, p, "T", OkEnv).ok
=============================================================================
