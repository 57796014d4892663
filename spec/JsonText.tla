------------------------------ MODULE JsonText ------------------------------
(* JSON texts (RFC 8259) as sequences of tokens: which texts are values, and which value they are.

   Tokens: { } [ ] , : are themselves; "s" followed by a name is a complete string, "n" a number, "l" a literal, "_" a space, "q" a single quote
   character that opens or closes nothing.  A value is [t |-> "o", m] (members <<name, value>>), [t |-> "a", l] or [t, x] (token x). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Tokens, N, Trees, Starts
VARIABLES x, m
RECURSIVE Ws(_, _), Val(_, _), Mem(_, _, _), Els(_, _, _), Txt(_, _)
Kind(t) == t[1]
Is(s, p, k) == p <= Len(s) /\ Kind(s[p]) = k
Ws(s, p) == IF Is(s, p, "_") THEN Ws(s, p + 1) ELSE p
Bad == [ok |-> FALSE, p |-> 0, v |-> [t |-> "?"]]
(* a value at p (after spaces) and the position behind it *)
Val(s, p0) == LET p == Ws(s, p0) IN
  CASE p > Len(s) -> Bad
    [] Kind(s[p]) \in {"s", "n", "l"} -> [ok |-> TRUE, p |-> p + 1, v |-> [t |-> Kind(s[p]), x |-> s[p][2]]]
    [] Kind(s[p]) = "{" -> IF Is(s, Ws(s, p + 1), "}") THEN [ok |-> TRUE, p |-> Ws(s, p + 1) + 1, v |-> [t |-> "o", m |-> <<>>]] ELSE Mem(s, p + 1, <<>>)
    [] Kind(s[p]) = "[" -> IF Is(s, Ws(s, p + 1), "]") THEN [ok |-> TRUE, p |-> Ws(s, p + 1) + 1, v |-> [t |-> "a", l |-> <<>>]] ELSE Els(s, p + 1, <<>>)
    [] OTHER -> Bad
Mem(s, p0, acc) == LET p == Ws(s, p0) IN
  IF ~Is(s, p, "s") THEN Bad
  ELSE LET c == Ws(s, p + 1) IN
       IF ~Is(s, c, ":") THEN Bad
       ELSE LET r == Val(s, c + 1) IN
            IF ~r.ok THEN Bad
            ELSE LET a == Append(acc, << s[p][2], r.v >>) q == Ws(s, r.p) IN
                 CASE Is(s, q, ",") -> Mem(s, q + 1, a)
                   [] Is(s, q, "}") -> [ok |-> TRUE, p |-> q + 1, v |-> [t |-> "o", m |-> a]]
                   [] OTHER -> Bad
Els(s, p0, acc) == LET r == Val(s, p0) IN
  IF ~r.ok THEN Bad
  ELSE LET a == Append(acc, r.v) q == Ws(s, r.p) IN
       CASE Is(s, q, ",") -> Els(s, q + 1, a)
         [] Is(s, q, "]") -> [ok |-> TRUE, p |-> q + 1, v |-> [t |-> "a", l |-> a]]
         [] OTHER -> Bad
Parse(s) == LET r == Val(s, 1) IN IF r.ok /\ Ws(s, r.p) = Len(s) + 1 THEN r ELSE Bad
(* the text of a value; sp: with spaces everywhere *)
Sp(sp) == IF sp THEN << <<"_">> >> ELSE <<>>
Join(ss, sep) == LET RECURSIVE J(_) J(i) == IF i > Len(ss) THEN <<>> ELSE (IF i = 1 THEN <<>> ELSE sep) \o ss[i] \o J(i + 1) IN J(1)
Txt(v, sp) == CASE v.t = "o" -> << <<"{">> >> \o Sp(sp) \o Join([i \in DOMAIN v.m |-> << <<"s", v.m[i][1]>> >> \o Sp(sp) \o << <<":">> >> \o Sp(sp) \o Txt(v.m[i][2], sp) \o Sp(sp)], << <<",">> >> \o Sp(sp)) \o << <<"}">> >>
                [] v.t = "a" -> << <<"[">> >> \o Sp(sp) \o Join([i \in DOMAIN v.l |-> Txt(v.l[i], sp) \o Sp(sp)], << <<",">> >> \o Sp(sp)) \o << <<"]">> >>
                [] OTHER -> << <<v.t, v.x>> >>
Init == \/ x \in {Txt(v, sp) : v \in Trees, sp \in BOOLEAN} /\ m = N
        \/ x = <<>> /\ m = 0
        \/ x \in Starts /\ m = N - 2
Next == m < N /\ m' = m + 1 /\ \E t \in Tokens : x' = Append(x, t)
Inv == LET r == Parse(x) IN
       /\ r.ok => Parse(Txt(r.v, TRUE)) = [r EXCEPT !.p = Len(Txt(r.v, TRUE)) + 1] /\ Parse(Txt(r.v, FALSE)).v = r.v     \* writing and reading are inverse
       /\ PrintT("@@" \o ToJson([x |-> x, ok |-> r.ok, v |-> r.v]))
ASSUME \A v \in Trees : Parse(Txt(v, TRUE)).v = v
=============================================================================
