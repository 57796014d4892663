------------------------------ MODULE Message ------------------------------
(* Histories of one client that receives altered messages of a prover.

   A message is a tree of nodes (its SSZ layout).  Node kinds and what a prover may do to them:
     off   a 4 byte offset: any other place                       sel   the selector of a union: any other type
     fix   a value of fixed size: other bytes                     dyn   bytes of any length: other bytes or length
     list  elements lost, doubled, swapped, far too many          msg   the whole message: cut off at a node, or longer
   raw operations keep all other bytes where they are (the layout may break); the others keep a correct layout around the change.

   The client is an observer: it holds the result of the honest message or nothing.  Whatever was sent before, the answer to an altered message
   is an error or the honest result, and the honest message still yields its result. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Msgs,      \* sequence of messages; a message is a sequence of nodes [k, n] (n: length, or number of alternatives of a selector)
          Fixed, Dyn, Lists, Offs, Cuts,   \* the operations per kind
          Depth      \* how many altered messages are sent
VARIABLES m, hist, truth
Ops(nd) == CASE nd.k = "off" -> Offs
             [] nd.k = "sel" -> {"s" \o ToString(i) : i \in 0 .. nd.n} \cup {"s255"}
             [] nd.k = "fix" -> Fixed
             [] nd.k = "dyn" -> Fixed \cup Dyn
             [] nd.k = "list" -> Lists
             [] OTHER -> Cuts
Init == m \in DOMAIN Msgs /\ hist \in {<<>>, << <<0, "honest">> >>} /\ truth = TRUE
Alter == \E i \in DOMAIN Msgs[m] : \E op \in Ops(Msgs[m][i]) : hist' = Append(hist, <<i, op>>) /\ UNCHANGED <<m, truth>>
Altered == Len(SelectSeq(hist, LAMBDA h : h[1] # 0))
Next == Altered < Depth /\ Alter
Inv == truth /\ (Altered = 0 \/ PrintT("@@" \o ToJson([m |-> m, h |-> hist])))
=============================================================================
