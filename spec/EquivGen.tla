------------------------------ MODULE EquivGen ------------------------------
\* Writes the pairs of handlers that are to be tried
EXTENDS Equiv

VARIABLE done

Init == done = FALSE
Next == /\ ~done
        /\ JsonSerialize(IOEnv.OUT, SetToSeq(Edges))
        /\ done' = TRUE
Spec == Init /\ [][Next]_done
=============================================================================
