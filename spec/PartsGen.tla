------------------------------ MODULE PartsGen ------------------------------
\* Writes the worlds
EXTENDS Parts

VARIABLE done

Init == done = FALSE
Next == /\ ~done
        /\ JsonSerialize(IOEnv.OUT, Worlds)
        /\ done' = TRUE
Spec == Init /\ [][Next]_done
=============================================================================
