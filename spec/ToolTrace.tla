----------------------------- MODULE ToolTrace -----------------------------
\* Judges what was observed
EXTENDS Tool

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES ti, si

Init == ti \in 1..Len(Traces) /\ si = 0

Next == /\ si = 0
        /\ si' = 1
        /\ ti' = ti
        /\ LET b == Judge(Traces[ti].segs) IN
             \A i \in { x[1] : x \in b } :
               PrintT("BAD|" \o ToString(ti) \o "|" \o ToString(i) \o "|"
                             \o ToString({ x[2] : x \in { y \in b : y[1] = i } }))
        /\ PrintT("DONE|" \o ToString(ti) \o "|" \o ToString(Len(Traces[ti].segs)) \o "|FALSE|0")

Spec == Init /\ [][Next]_<<ti, si>>
=============================================================================
