----------------------------- MODULE LookupGen -----------------------------
\* Writes the configurations, and for each kind of name the changes of places
EXTENDS Lookup

VARIABLE done

Init == done = FALSE
Next == /\ ~done
        /\ JsonSerialize(IOEnv.OUT,
             [configs |-> SetToSeq(Configs), ordinary |-> SetToSeq(Ordinary),
              toggles |-> [k \in Kinds |-> SetToSeq(Toggles(k))]])
        /\ done' = TRUE
Spec == Init /\ [][Next]_done
=============================================================================
