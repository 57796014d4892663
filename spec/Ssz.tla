-------------------------------- MODULE Ssz --------------------------------
(* SimpleSerialize: encoding, strict decoding and Merkleization, written down from the consensus specification.

   A type is a record: [k |-> "u", n] unsigned integer of n bytes, "bool", [k |-> "vec", n, t], [k |-> "list", n, t] (n: limit),
   [k |-> "con", f] container, [k |-> "uni", f] union, "none", [k |-> "bv", n] and [k |-> "bl", n] bits.
   Values: bytes of an integer (little endian), 0/1, sequences of values, <<selector, value>>, sequences of bits.
   Hashing is ideal: the root is the term of the tree (a chunk is a sequence of 32 bytes, a node a record [l, r]). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Types, Vals, Alphabet, K
VARIABLES ti, b, n
RECURSIVE Fixed(_), FixedLen(_), Enc(_, _), Valid(_, _), Dec(_, _), Cat(_), Sum(_), Root(_, _), Tree(_, _), Pow2(_)
Pow2(d) == IF d = 0 THEN 1 ELSE 2 * Pow2(d - 1)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Fixed(t) == CASE t.k \in {"u", "bool", "bv"} -> TRUE
              [] t.k = "vec" -> Fixed(t.t)
              [] t.k = "con" -> \A i \in DOMAIN t.f : Fixed(t.f[i])
              [] OTHER -> FALSE
FixedLen(t) == CASE t.k = "u" -> t.n
                 [] t.k = "bool" -> 1
                 [] t.k = "bv" -> (t.n + 7) \div 8
                 [] t.k = "vec" -> t.n * FixedLen(t.t)
                 [] t.k = "con" -> Sum([i \in DOMAIN t.f |-> FixedLen(t.f[i])])
                 [] OTHER -> 0
Slot(t) == IF Fixed(t) THEN FixedLen(t) ELSE 4           \* what it takes in the fixed part
LE4(x) == <<x % 256, (x \div 256) % 256, (x \div 65536) % 256, 0>>
(* larger offsets than this never fit *)
Off(bs, p) == IF bs[p + 4] > 0 \/ bs[p + 3] > 0 THEN 1000000 ELSE bs[p + 1] + 256 * bs[p + 2]
Bits(v) == [i \in 1 .. (Len(v) + 7) \div 8 |-> LET q(j) == IF (i - 1) * 8 + j <= Len(v) THEN v[(i - 1) * 8 + j] * Pow2(j - 1) ELSE 0 IN q(1) + q(2) + q(3) + q(4) + q(5) + q(6) + q(7) + q(8)]
Bit(x, j) == (x \div Pow2(j)) % 2
ElemTypes(t, v) == IF t.k = "con" THEN t.f ELSE [i \in DOMAIN v |-> t.t]
EncSeq(ts, v) == LET part(i) == Enc(ts[i], v[i])
                     head == Sum([i \in DOMAIN v |-> Slot(ts[i])])
                     dyn(i) == IF Fixed(ts[i]) THEN 0 ELSE Len(part(i))
                     offs(i) == head + Sum([j \in 1 .. i - 1 |-> dyn(j)])
                 IN Cat([i \in DOMAIN v |-> IF Fixed(ts[i]) THEN part(i) ELSE LE4(offs(i))]) \o Cat([i \in DOMAIN v |-> IF Fixed(ts[i]) THEN <<>> ELSE part(i)])
Enc(t, v) == CASE t.k = "u" -> v
               [] t.k = "bool" -> <<v>>
               [] t.k = "none" -> <<>>
               [] t.k = "bv" -> Bits(v)
               [] t.k = "bl" -> Bits(Append(v, 1))
               [] t.k = "uni" -> <<v[1]>> \o Enc(t.f[v[1] + 1], v[2])
               [] OTHER -> EncSeq(ElemTypes(t, v), v)
(* the parts of an encoded sequence of elements of the types ts: <<start, end>> *)
Cuts(ts, bs) ==
  LET pos(i) == Sum([j \in 1 .. i - 1 |-> Slot(ts[j])])
      dyns == {i \in DOMAIN ts : ~Fixed(ts[i])}
      next(i) == IF {j \in dyns : j > i} = {} THEN Len(bs) ELSE Off(bs, pos(CHOOSE j \in dyns : j > i /\ \A q \in dyns : q > i => j <= q))
  IN [i \in DOMAIN ts |-> IF Fixed(ts[i]) THEN <<pos(i), pos(i) + FixedLen(ts[i])>> ELSE <<Off(bs, pos(i)), next(i)>>]
Part(bs, c) == SubSeq(bs, c[1] + 1, c[2])
ValidSeq(ts, bs) ==
  LET head == Sum([i \in DOMAIN ts |-> Slot(ts[i])])
      dyns == {i \in DOMAIN ts : ~Fixed(ts[i])}
      c == Cuts(ts, bs)
  IN /\ Len(bs) >= head
     /\ IF dyns = {} THEN Len(bs) = head
        ELSE c[CHOOSE i \in dyns : \A j \in dyns : i <= j][1] = head
     /\ \A i \in dyns : c[i][1] <= c[i][2] /\ c[i][2] <= Len(bs)
     /\ \A i \in DOMAIN ts : Valid(ts[i], Part(bs, c[i]))
(* the element types of an encoded list; <<>> and no elements if the first offset makes no sense *)
Count(t, bs) == IF Fixed(t.t) THEN Len(bs) \div FixedLen(t.t) ELSE IF Len(bs) < 4 THEN 0 ELSE Off(bs, 0) \div 4
Valid(t, bs) ==
  CASE t.k = "u" -> Len(bs) = t.n
    [] t.k = "bool" -> Len(bs) = 1 /\ bs[1] <= 1
    [] t.k = "none" -> bs = <<>>
    [] t.k = "bv" -> Len(bs) = (t.n + 7) \div 8 /\ (t.n % 8 # 0 => bs[Len(bs)] < Pow2(t.n % 8))
    [] t.k = "bl" -> Len(bs) > 0 /\ bs[Len(bs)] # 0 /\ (Len(bs) - 1) * 8 + (CHOOSE j \in 0 .. 7 : bs[Len(bs)] >= Pow2(j) /\ bs[Len(bs)] < Pow2(j + 1)) <= t.n
    [] t.k = "uni" -> Len(bs) > 0 /\ bs[1] < Len(t.f) /\ Valid(t.f[bs[1] + 1], Tail(bs))
    [] t.k = "con" -> ValidSeq(t.f, bs)
    [] t.k = "vec" -> ValidSeq([i \in 1 .. t.n |-> t.t], bs)
    [] OTHER -> /\ bs = <<>> \/ IF Fixed(t.t) THEN Len(bs) % FixedLen(t.t) = 0 ELSE Len(bs) >= 4 /\ Off(bs, 0) <= Len(bs) /\ Off(bs, 0) % 4 = 0 /\ Off(bs, 0) > 0
                /\ Count(t, bs) <= t.n
                /\ ValidSeq([i \in 1 .. Count(t, bs) |-> t.t], bs)
BitSeq(bs, len) == [i \in 1 .. len |-> Bit(bs[(i - 1) \div 8 + 1], (i - 1) % 8)]
DecSeq(ts, bs) == LET c == Cuts(ts, bs) IN [i \in DOMAIN ts |-> Dec(ts[i], Part(bs, c[i]))]
Dec(t, bs) == CASE t.k = "u" -> bs
                [] t.k = "bool" -> bs[1]
                [] t.k = "none" -> <<>>
                [] t.k = "bv" -> BitSeq(bs, t.n)
                [] t.k = "bl" -> BitSeq(bs, (Len(bs) - 1) * 8 + (CHOOSE j \in 0 .. 7 : bs[Len(bs)] >= Pow2(j) /\ bs[Len(bs)] < Pow2(j + 1)))
                [] t.k = "uni" -> <<bs[1], Dec(t.f[bs[1] + 1], Tail(bs))>>
                [] t.k = "con" -> DecSeq(t.f, bs)
                [] t.k = "vec" -> DecSeq([i \in 1 .. t.n |-> t.t], bs)
                [] OTHER -> DecSeq([i \in 1 .. Count(t, bs) |-> t.t], bs)
(* ---- Merkleization *)
Zero == [i \in 1 .. 32 |-> 0]
Chunk(bs, i) == [j \in 1 .. 32 |-> IF 32 * (i - 1) + j <= Len(bs) THEN bs[32 * (i - 1) + j] ELSE 0]
Chunks(bs) == [i \in 1 .. (Len(bs) + 31) \div 32 |-> Chunk(bs, i)]
Depth(m) == CHOOSE d \in 0 .. 12 : Pow2(d) >= m /\ (d = 0 \/ Pow2(d - 1) < m)
Tree(leaves, d) == IF d = 0 THEN IF leaves = <<>> THEN Zero ELSE leaves[1]
                   ELSE LET h == Pow2(d - 1) IN [l |-> Tree(SubSeq(leaves, 1, IF h < Len(leaves) THEN h ELSE Len(leaves)), d - 1), r |-> Tree(IF h >= Len(leaves) THEN <<>> ELSE SubSeq(leaves, h + 1, Len(leaves)), d - 1)]
Basic(t) == t.k \in {"u", "bool"}
Mix(root, x) == [l |-> root, r |-> Chunk(LE4(x), 1)]
Max1(x) == IF x < 1 THEN 1 ELSE x
Leaves(t, v) == IF Basic(t.t) THEN Chunks(Cat([i \in DOMAIN v |-> Enc(t.t, v[i])])) ELSE [i \in DOMAIN v |-> Root(t.t, v[i])]
Limit(t) == IF Basic(t.t) THEN (t.n * FixedLen(t.t) + 31) \div 32 ELSE t.n
Root(t, v) == CASE Basic(t) -> Chunk(Enc(t, v), 1)
                [] t.k = "none" -> Zero
                [] t.k = "con" -> Tree([i \in DOMAIN t.f |-> Root(t.f[i], v[i])], Depth(Len(t.f)))
                [] t.k = "vec" -> Tree(Leaves(t, v), Depth(Max1(Limit(t))))
                [] t.k = "list" -> Mix(Tree(Leaves(t, v), Depth(Max1(Limit(t)))), Len(v))
                [] t.k = "bv" -> Tree(Chunks(Bits(v)), Depth(Max1((t.n + 255) \div 256)))
                [] t.k = "bl" -> Mix(Tree(Chunks(Bits(v)), Depth(Max1((t.n + 255) \div 256))), Len(v))
                [] t.k = "uni" -> Mix(Root(t.f[v[1] + 1], v[2]), v[1])
RECURSIVE HasUnion(_)
HasUnion(t) == CASE t.k = "uni" -> TRUE
                 [] t.k \in {"vec", "list"} -> HasUnion(t.t)
                 [] t.k = "con" -> \E i \in DOMAIN t.f : HasUnion(t.f[i])
                 [] OTHER -> FALSE
(* ---- histories: an honest encoding, then K bytes altered, lost or added *)
Init == \E i \in DOMAIN Types : ti = i /\ \E j \in DOMAIN Vals[i] : b = Enc(Types[i], Vals[i][j]) /\ n = 0
Next == /\ n < K /\ n' = n + 1 /\ ti' = ti
        /\ \/ \E p \in DOMAIN b : \E x \in Alphabet : x # b[p] /\ b' = [b EXCEPT ![p] = x]
           \/ \E l \in 0 .. Len(b) - 1 : b' = SubSeq(b, 1, l)
           \/ \E x \in Alphabet : b' = Append(b, x)
           \/ \E p \in DOMAIN b : b' = SubSeq(b, 1, p - 1) \o SubSeq(b, p + 1, Len(b))
T == Types[ti]
ok == Valid(T, b)
(* decoding is the inverse of encoding, and a valid encoding is the only one of its value *)
Inv == /\ n = 0 => ok
       /\ ok => Enc(T, Dec(T, b)) = b
       /\ PrintT("@@" \o ToJson(IF ok THEN [t |-> ti, b |-> b, n |-> n, ok |-> TRUE, v |-> Dec(T, b), r |-> IF HasUnion(T) THEN [l |-> 0] ELSE [l |-> Root(T, Dec(T, b))]] ELSE [t |-> ti, b |-> b, n |-> n, ok |-> FALSE]))
=============================================================================
