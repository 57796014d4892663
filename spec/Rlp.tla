-------------------------------- MODULE Rlp --------------------------------
(* Recursive length prefix (yellow paper, appendix B): reading the items of a byte string and writing values.

   Reading: Items(b) are the items that lie completely within b, in order, and whether b ends exactly behind the last one.
   Writing: a value is [k |-> "item", n, x] (n bytes x), [k |-> "uint", b] (a number as big endian bytes) or [k |-> "list", l]; its encoding is a
   sequence of segments [h, n, x] (bytes h, then n bytes x), so that lengths beyond 2^16 need no byte strings of this size. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Alphabet, N, Bases, Values
VARIABLES w, m
RECURSIVE BE(_), Items(_, _), Cat(_), Strip(_), Enc(_), Sum(_), Bytes(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Huge == 10000000
BE(s) == IF s = <<>> THEN 0 ELSE LET h == BE(SubSeq(s, 1, Len(s) - 1)) IN IF h >= 10000 THEN Huge ELSE h * 256 + s[Len(s)]
(* ---- reading *)
Item(s, p) ==  \* the item at position p: kind, first byte and length of its content; "out" if it does not fit
  LET c == s[p]
      long(n, k) == IF p + n > Len(s) THEN [k |-> "out", p |-> 0, n |-> 0] ELSE [k |-> k, p |-> p + n + 1, n |-> BE(SubSeq(s, p + 1, p + n))]
      it == CASE c < 128 -> [k |-> "item", p |-> p, n |-> 1]
              [] c < 184 -> [k |-> "item", p |-> p + 1, n |-> c - 128]
              [] c < 192 -> long(c - 183, "item")
              [] c < 248 -> [k |-> "list", p |-> p + 1, n |-> c - 192]
              [] OTHER -> long(c - 247, "list")
  IN IF it.k # "out" /\ it.p + it.n - 1 <= Len(s) THEN it ELSE [k |-> "out", p |-> 0, n |-> 0]
Items(s, p) == IF p > Len(s) THEN [l |-> <<>>, end |-> TRUE]
               ELSE LET it == Item(s, p) IN IF it.k = "out" THEN [l |-> <<>>, end |-> FALSE] ELSE LET r == Items(s, it.p + it.n) IN [l |-> <<it>> \o r.l, end |-> r.end]
(* ---- writing *)
Strip(s) == IF s = <<>> \/ Head(s) # 0 THEN s ELSE Strip(Tail(s))
Len2(n) == Strip(<<n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>)
Hdr(n, off) == IF n < 56 THEN <<off + n>> ELSE <<off + 55 + Len(Len2(n))>> \o Len2(n)
Size(segs) == Sum([i \in DOMAIN segs |-> Len(segs[i].h) + segs[i].n])
Enc(v) == CASE v.k = "item" -> IF v.n = 1 /\ v.x < 128 THEN << [h |-> <<>>, n |-> 1, x |-> v.x] >> ELSE << [h |-> Hdr(v.n, 128), n |-> v.n, x |-> v.x] >>
            [] v.k = "uint" -> LET s == Strip(v.b) IN << [h |-> IF Len(s) = 1 /\ s[1] < 128 THEN s ELSE Hdr(Len(s), 128) \o s, n |-> 0, x |-> 0] >>
            [] OTHER -> LET c == Cat([i \in DOMAIN v.l |-> Enc(v.l[i])]) IN << [h |-> Hdr(Size(c), 192), n |-> 0, x |-> 0] >> \o c
Bytes(segs) == IF segs = <<>> THEN <<>> ELSE segs[1].h \o [i \in 1 .. segs[1].n |-> segs[1].x] \o Bytes(Tail(segs))
(* ---- every byte string of up to N bytes behind every base string *)
Init == w \in Bases /\ m = 0
Next == m < N /\ m' = m + 1 /\ \E y \in Alphabet : w' = Append(w, y)
Inv == LET r == Items(w, 1) IN
       /\ \A i \in DOMAIN r.l : r.l[i].p >= 1 /\ r.l[i].p + r.l[i].n - 1 <= Len(w)                       \* nothing outside
       /\ \A i \in 1 .. Len(r.l) - 1 : r.l[i].p + r.l[i].n <= r.l[i + 1].p                                \* in order, without overlap
       /\ PrintT("@@" \o ToJson([b |-> w, l |-> r.l, end |-> r.end]))
(* every value is read back *)
Back(v) == LET e == Bytes(Enc(v)) r == Items(e, 1) IN
           /\ r.end /\ Len(r.l) = 1 /\ r.l[1].k = (IF v.k = "list" THEN "list" ELSE "item")
           /\ v.k = "item" => r.l[1].n = v.n
           /\ v.k = "list" => LET c == SubSeq(e, r.l[1].p, Len(e)) q == Items(c, 1) IN q.end /\ Len(q.l) = Len(v.l)
                                 /\ \A i \in DOMAIN v.l : v.l[i].k = "item" => q.l[i].n = v.l[i].n
ASSUME \A v \in Values : (Size(Enc(v)) < 3000 => Back(v)) /\ PrintT("@@" \o ToJson([v |-> v, e |-> Enc(v)]))
=============================================================================
