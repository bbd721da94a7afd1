------------------------------ MODULE CallGen ------------------------------
\* Writes all transitions of the state machines of Calls, for all profiles
EXTENDS Calls

VARIABLES pi, s

P == Profiles[pi]

Init == /\ pi \in 1..Len(Profiles)
        /\ s = IF P.kind = "tree" THEN TreeState(P.elements)
               ELSE IF P.kind = "cells" THEN CellState
               ELSE [e \in 1..P.elements |-> 0]

Ops == IF P.kind = "tree" THEN TreeOps(P, s)
       ELSE IF P.kind = "cells" THEN CellOps(P, s)
       ELSE TableOps(P, s)

Do(op) == IF P.kind = "tree" THEN TreeDo(s, op)
          ELSE IF P.kind = "cells" THEN CellDo(P, s, op)
          ELSE op[2]

Next == \E op \in Ops :
          /\ s' = Do(op)
          /\ pi' = pi
          /\ PrintT("EDGE|" \o ToString(pi) \o "|" \o ToJson(s) \o "|" \o ToJson(op)
                    \o "|" \o ToJson(s'))

Spec == Init /\ [][Next]_<<pi, s>>

\* Every element is in at most one place of the tree
TypeOK ==
  P.kind = "tree" =>
    \A e \in 1..P.elements :
      Cardinality({ x \in 0..P.elements : Has(s.ch[x], e) })
        = (IF s.cls[e] = "" THEN 0 ELSE 1)
=============================================================================
