----------------------------- MODULE PackTrace -----------------------------
\* Judges what was observed
EXTENDS Pack

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES ti, si

Init == ti \in 1..Len(Traces) /\ si = 0

Next == /\ si = 0
        /\ si' = 1
        /\ ti' = ti
        /\ LET t == Traces[ti].segs IN
             \A i \in 1..Len(t) :
               LET b == Clauses(t[i]) IN
                 b # {} => PrintT("BAD|" \o ToString(ti) \o "|" \o ToString(i) \o "|" \o ToString(b))
        /\ PrintT("DONE|" \o ToString(ti) \o "|" \o ToString(Len(Traces[ti].segs)) \o "|FALSE|0")

Spec == Init /\ [][Next]_<<ti, si>>
=============================================================================
