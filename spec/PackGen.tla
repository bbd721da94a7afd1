------------------------------ MODULE PackGen ------------------------------
\* Writes all configurations
EXTENDS Pack

VARIABLE done

Init == done = FALSE
Next == /\ ~done
        /\ JsonSerialize(IOEnv.OUT,
             SetToSeq({ [config |-> c,
                         lines |-> [i \in 1..Len(c.files) |-> Line(c.files[i].kind)]] :
                        c \in { x \in Configs : Sensible(x) } }))
        /\ done' = TRUE

Spec == Init /\ [][Next]_done
=============================================================================
