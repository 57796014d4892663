----------------------------- MODULE LogsCache -----------------------------
(* The cache of the logs of the latest blocks of a prover, from which eth_getLogs is served without asking a node for them.

   An ideal cache: a contiguous range of block numbers, each with the content (receipts) stored last for it.  Adding the block after the range
   extends it, adding a block of the range replaces its content, any other block starts a new range; beyond the limit the oldest block is dropped.
   Changing the limit or disabling starts afresh.  A query is served if, and only if, the cache is enabled and its range is contained, it does not
   select a block by hash, and then the result is what a node would answer: exactly the matching logs of these blocks, in their order.
   Content is one of a few patterns: for each transaction its logs, a log being <<address, topics>>. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Blocks, Patterns, Filters, Limits, MaxLen, QueryEvery, Ring
VARIABLES hist, limit, from, cont
vars == <<hist, limit, from, cont>>
(* the patterns *)
L(a, t) == [a |-> a, t |-> t]
Pattern == << <<>>,
              << <<L(1, <<1>>)>> >>,
              << <<>>, <<L(2, <<1, 2>>), L(1, <<>>)>>, <<L(1, <<2, 1, 1>>)>> >>,
              << <<L(1, <<1, 2, 3, 1>>), L(3, <<3>>), L(1, <<1, 2>>)>>, <<>>, <<>>, <<L(2, <<1, 3>>), L(2, <<3, 3>>)>> >> >>
(* the filters: a set of addresses (none: any), for each position a set of topics (none: any); by: whether the block is selected by hash *)
F(a, t) == [a |-> a, t |-> t, hash |-> FALSE]
Filter == << F({}, <<>>), F({1}, <<>>), F({1, 2}, <<{1}>>), F({}, <<{}, {2, 3}>>), F({2}, <<{1}, {3}>>), F({}, <<{}, {}, {}, {1}>>), F({4}, <<>>),
             F({1, 2, 3, 4, 5}, <<{1, 2, 3, 4}>>), F({1, 2}, <<{1, 2, 3}, {1, 2, 3}>>), [F({1}, <<>>) EXCEPT !.hash = TRUE], F({}, <<{3}>>), F({1}, <<{1}, {2}, {3}, {1}>>) >>
Matches(f, l) == /\ (f.a = {} \/ l.a \in f.a)
                 /\ \A p \in DOMAIN f.t : f.t[p] = {} \/ (p <= Len(l.t) /\ l.t[p] \in f.t[p])
RECURSIVE Cat(_, _, _)
Cat(F2(_), a, b) == IF a > b THEN <<>> ELSE F2(a) \o Cat(F2, a + 1, b)
TxLogs(f, b, c, t) == LET one(k) == IF Matches(f, Pattern[c][t][k]) THEN << <<b, t - 1, k - 1>> >> ELSE <<>> IN Cat(one, 1, Len(Pattern[c][t]))
BlockLogs(f, b, c) == LET one(t) == TxLogs(f, b, c, t) IN Cat(one, 1, Len(Pattern[c]))
Last == from + Len(cont) - 1
Range(a, b) == limit > 0 /\ cont # <<>> /\ a <= b /\ from <= a /\ b <= Last
Result(f, a, b) == LET one(n) == BlockLogs(f, n, cont[n - from + 1]) IN Cat(one, a, b)
Log(o, a, b, c, s, r) == hist' = Append(hist, [o |-> o, a |-> a, b |-> b, c |-> c, s |-> s, r |-> r, from |-> from', cont |-> cont'])
Enable(n) == /\ limit' = n /\ (IF n = limit THEN UNCHANGED <<from, cont>> ELSE from' = 0 /\ cont' = <<>>) /\ Log("e", n, 0, 0, 0, <<>>)
Disable == limit' = 0 /\ from' = 0 /\ cont' = <<>> /\ Log("d", 0, 0, 0, 0, <<>>)
Add(b, c) == /\ UNCHANGED limit
             /\ IF limit = 0 THEN UNCHANGED <<from, cont>>
                ELSE IF cont # <<>> /\ from <= b /\ b <= Last THEN from' = from /\ cont' = [cont EXCEPT ![b - from + 1] = c]
                ELSE IF cont = <<>> \/ b # Last + 1 THEN from' = b /\ cont' = <<c>>
                ELSE IF Len(cont) = limit THEN from' = from + 1 /\ cont' = Append(Tail(cont), c)
                ELSE from' = from /\ cont' = Append(cont, c)
             /\ Log("a", b, 0, c, 0, <<>>)
Query(a, b, k) == /\ UNCHANGED <<limit, from, cont>>
                  /\ LET f == Filter[k] IN
                     IF ~f.hash /\ a > b THEN Log("q", a, b, k, IF limit > 0 THEN 2 ELSE 0, <<>>)
                     ELSE IF f.hash \/ ~Range(a, b) THEN Log("q", a, b, k, 0, <<>>)
                     ELSE Log("q", a, b, k, 1, Result(f, a, b))
Has(a, b) == UNCHANGED <<limit, from, cont>> /\ Log("h", a, b, 0, IF limit > 0 /\ Range(a, b) THEN 1 ELSE 0, <<>>)
Init == hist = <<>> /\ limit = 0 /\ from = 0 /\ cont = <<>>
(* histories that go around the ring: blocks in a row, from time to time another block, another limit or a restart, and queries within the range *)
Around == IF hist = <<>> \/ (limit = 0 /\ Len(hist) % 12 # 9) THEN \E n \in Limits : Enable(n)
          ELSE IF Len(hist) % 24 = 21 THEN Disable \/ (\E n \in Limits : Enable(n)) \/ (\E b \in Blocks, c \in Patterns : Add(b, c))
          ELSE IF Len(hist) % 12 = 9 THEN \E b \in Blocks, c \in Patterns : Add(b, c)
          ELSE IF Len(hist) % 3 = 2 /\ cont # <<>> THEN \E a \in from .. Last, b \in from .. Last + 1, k \in Filters : a <= b /\ Query(a, b, k)
          ELSE \E b \in Blocks, c \in Patterns : Add(IF cont = <<>> THEN b ELSE Last + 1, c)
Next == /\ Len(hist) < MaxLen
        /\ IF Ring THEN Around
           ELSE IF hist = <<>> THEN \E n \in Limits : Enable(n)
           ELSE \/ \E b \in Blocks, c \in Patterns : (b = Last + 1 \/ Len(hist) % 3 = 2) /\ Add(b, c)
                \/ \E a \in Blocks, b \in Blocks, k \in Filters : Len(hist) % QueryEvery = 0 /\ Query(a, b, k)
                \/ \E a \in Blocks, b \in Blocks : Len(hist) % QueryEvery = 1 /\ Has(a, b)
                \/ \E n \in Limits : Len(hist) % 5 = 4 /\ Enable(n)
                \/ Len(hist) % 7 = 6 /\ Disable
Inv == /\ (limit = 0 => cont = <<>>) /\ Len(cont) <= limit
       /\ \A j \in DOMAIN hist : \A k \in DOMAIN hist[j].r : hist[j].r[k][1] \in hist[j].a .. hist[j].b
       /\ (Len(hist) < MaxLen \/ PrintT("@@" \o ToJson([h |-> hist])))
=============================================================================
