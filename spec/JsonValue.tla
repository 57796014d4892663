----------------------------- MODULE JsonValue -----------------------------
(* What JSON values mean: texts with escapes, numbers and hex strings, and which values a schema accepts.

   Strings are sequences of characters: <<"c", byte>> (as it is), <<"e", letter>> (escaped), <<"u", code point>>.
   Scalars of the schema part: [t |-> "hex", pre, n, z, bad] is the string pre followed by n hex digits (z: the first one is 0, bad: position of a
   character that is no digit, 0: none); [t |-> "str", x] another string; [t |-> "num", x]; [t |-> "lit", x]; [t |-> "a", l]; [t |-> "o", m].
   Schemas: [s |-> name] for scalars, [s |-> "arr", e], [s |-> "obj", f] (fields [n, opt, s]), [s |-> "map", e].  Verdicts: yes, no, any (tolerated). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Chars, MaxStr, Hexes, Sizes, Schemas, Scalars, K
VARIABLES cur, dev
RECURSIVE Cat(_), Acc(_, _), Honest(_), Mut(_, _)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
Esc(l) == CASE l = "b" -> 8 [] l = "t" -> 9 [] l = "n" -> 10 [] l = "f" -> 12 [] l = "r" -> 13 [] l = "quote" -> 34 [] l = "slash" -> 47 [] l = "back" -> 92
Utf8(c) == IF c < 128 THEN <<c>> ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>> ELSE <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Char(c) == CASE c[1] = "c" -> <<c[2]>> [] c[1] = "e" -> <<Esc(c[2])>> [] OTHER -> Utf8(c[2])
Text(cs) == Cat([i \in DOMAIN cs |-> Char(cs[i])])
(* ---- hex strings read into a buffer of size z: the number of bytes, or -1 *)
Read(h, z) == IF h.bad # 0 \/ h.pre \notin {"0x", ""} THEN 0 - 1 ELSE IF (h.n + 1) \div 2 > z THEN 0 - 1 ELSE (h.n + 1) \div 2
(* ---- schemas *)
Worst(vs) == IF "no" \in vs THEN "no" ELSE IF "any" \in vs THEN "any" ELSE "yes"
IsHex(v) == v.t = "hex" /\ v.pre = "0x" /\ v.bad = 0
If(c) == IF c THEN "yes" ELSE "no"
HexUint(v) == If(IsHex(v) /\ v.n > 0 /\ v.n <= 64 /\ (v.z => v.n = 1))
Min2(a, b) == IF a < b THEN a ELSE b
Field(v, name) == {i \in DOMAIN v.m : v.m[i][1] = name}
First(S) == CHOOSE i \in S : \A j \in S : i <= j
Acc(sc, v) ==
  CASE sc.s = "address" -> If(IsHex(v) /\ v.n = 40)
    [] sc.s = "bytes32" -> If(IsHex(v) /\ v.n = 64)
    [] sc.s = "bytes" -> IF IsHex(v) /\ v.n % 2 = 1 THEN "any" ELSE If(IsHex(v))
    [] sc.s = "hex32" -> IF IsHex(v) /\ v.n = 0 THEN "any" ELSE If(IsHex(v) /\ v.n <= 64)
    [] sc.s = "hexuint" -> HexUint(v)
    [] sc.s = "uint" -> IF v.t = "num" THEN (IF v.x = "7" THEN "yes" ELSE "any") ELSE "no"
    [] sc.s = "suint" -> If(v.t = "str" /\ v.x \in {"0", "123"})
    [] sc.s = "bool" -> If(v.t = "lit" /\ v.x \in {"true", "false"})
    [] sc.s = "block" -> IF v.t = "str" /\ v.x \in {"earliest", "pending"} THEN "any" ELSE IF v.t = "str" THEN If(v.x \in {"latest", "safe", "finalized"}) ELSE IF IsHex(v) /\ v.n = 64 THEN "yes" ELSE HexUint(v)
    [] sc.s = "arr" -> IF v.t # "a" THEN "no"
                       ELSE Worst({Acc(sc.e[Min2(i, Len(sc.e))], v.l[i]) : i \in DOMAIN v.l} \cup (IF Len(sc.e) > 1 /\ Len(v.l) # Len(sc.e) THEN {"any"} ELSE {}))
    [] sc.s = "obj" -> IF v.t # "o" THEN "no"
                       ELSE Worst({LET f == sc.f[i] at == Field(v, f.n) IN
                                   IF at = {} THEN If(f.opt) ELSE LET w == v.m[First(at)][2] IN IF f.opt /\ w.t = "lit" /\ w.x = "null" THEN "yes" ELSE Acc(f.s, w) : i \in DOMAIN sc.f})
    [] OTHER -> IF v.t # "o" THEN "no" ELSE Worst({Acc(sc.e, v.m[i][2]) : i \in DOMAIN v.m})
Hex(k, z) == [t |-> "hex", pre |-> "0x", n |-> k, z |-> z, bad |-> 0]
Str(x) == [t |-> "str", x |-> x]
Honest(sc) ==
  CASE sc.s = "address" -> Hex(40, FALSE) [] sc.s = "bytes32" -> Hex(64, TRUE) [] sc.s = "bytes" -> Hex(6, TRUE) [] sc.s = "hex32" -> Hex(2, FALSE) [] sc.s = "hexuint" -> Hex(3, FALSE)
    [] sc.s = "uint" -> [t |-> "num", x |-> "7"] [] sc.s = "suint" -> Str("123") [] sc.s = "bool" -> [t |-> "lit", x |-> "true"] [] sc.s = "block" -> Str("latest")
    [] sc.s = "arr" -> [t |-> "a", l |-> IF Len(sc.e) = 1 THEN <<Honest(sc.e[1]), Honest(sc.e[1])>> ELSE [i \in DOMAIN sc.e |-> Honest(sc.e[i])]]
    [] sc.s = "obj" -> [t |-> "o", m |-> [i \in DOMAIN sc.f |-> <<sc.f[i].n, Honest(sc.f[i].s)>>]]
    [] OTHER -> [t |-> "o", m |-> << <<"k1", Honest(sc.e)>>, <<"k2", Honest(sc.e)>> >>]
Drop(l, i) == SubSeq(l, 1, i - 1) \o SubSeq(l, i + 1, Len(l))
(* everything one change away *)
Mut(sc, v) ==
  Scalars \cup {[t |-> "a", l |-> <<>>], [t |-> "o", m |-> <<>>]} \cup
  (CASE v.t = "a" /\ sc.s = "arr" ->
          UNION {{[v EXCEPT !.l[i] = w] : w \in Mut(sc.e[Min2(i, Len(sc.e))], v.l[i])} : i \in DOMAIN v.l} \cup {[v EXCEPT !.l = Drop(@, i)] : i \in DOMAIN v.l} \cup {[v EXCEPT !.l = Append(@, w)] : w \in Scalars}
     [] v.t = "o" /\ sc.s \in {"obj", "map"} ->
          UNION {{[v EXCEPT !.m[i] = <<@[1], w>>] : w \in Mut(IF sc.s = "map" THEN sc.e ELSE IF \E j \in DOMAIN sc.f : sc.f[j].n = v.m[i][1] THEN sc.f[CHOOSE j \in DOMAIN sc.f : sc.f[j].n = v.m[i][1]].s ELSE [s |-> "bool"], v.m[i][2])} : i \in DOMAIN v.m}
          \cup {[v EXCEPT !.m = Drop(@, i)] : i \in DOMAIN v.m} \cup {[v EXCEPT !.m = Append(@, <<"zz", w>>)] : w \in Scalars}
          \cup {[v EXCEPT !.m = <<v.m[i]>> \o Drop(@, i)] : i \in DOMAIN v.m}                         \* the order is irrelevant
     [] OTHER -> {})
Init == dev = 0 /\ (\/ cur \in {[k |-> "str", c |-> <<>>]}
                  \/ cur \in {[k |-> "hex", h |-> h, z |-> z] : h \in Hexes, z \in Sizes}
                  \/ \E i \in DOMAIN Schemas : cur = [k |-> "val", i |-> i, v |-> Honest(Schemas[i])])
Next == \/ cur.k = "str" /\ Len(cur.c) < MaxStr /\ \E c \in Chars : cur' = [cur EXCEPT !.c = Append(@, c)] /\ dev' = dev
        \/ cur.k = "val" /\ dev < K /\ dev' = dev + 1 /\ \E w \in Mut(Schemas[cur.i], cur.v) : cur' = [cur EXCEPT !.v = w]
Inv == /\ cur.k = "val" /\ dev = 0 => Acc(Schemas[cur.i], cur.v) = "yes"                                        \* honest values are accepted
       /\ PrintT("@@" \o ToJson(CASE cur.k = "str" -> [k |-> "str", c |-> cur.c, r |-> Text(cur.c)]
                                  [] cur.k = "hex" -> [k |-> "hex", h |-> cur.h, z |-> cur.z, r |-> Read(cur.h, cur.z)]
                                  [] OTHER -> [k |-> "val", i |-> cur.i, v |-> cur.v, r |-> Acc(Schemas[cur.i], cur.v)]))
=============================================================================
