------------------------------ MODULE ReconGen ------------------------------
\* Writes the lists of every alphabet
EXTENDS Recon

VARIABLE done

Init == done = FALSE
Next == /\ ~done
        /\ JsonSerialize(IOEnv.OUT,
             [n \in DOMAIN Alphabets |-> SetToSeq(Lists(Alphabets[n]))])
        /\ done' = TRUE
Spec == Init /\ [][Next]_done
=============================================================================
