---------------------------- MODULE LookupTrace ----------------------------
\* Judges the values that were recorded
EXTENDS Lookup

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES ti, si

vars == <<ti, si>>

Init == ti \in 1..Len(Traces) /\ si = 0

Bad(i) == RowClauses(Traces[ti], Traces[ti].segs[i])

Next == /\ si < Len(Traces[ti].segs)
        /\ si' = si + 1
        /\ ti' = ti
        /\ Bad(si') # {} => PrintT("BAD|" \o ToString(ti) \o "|" \o ToString(si') \o "|"
                                   \o ToString(Bad(si')))
        /\ si' = Len(Traces[ti].segs) =>
             PrintT("DONE|" \o ToString(ti) \o "|" \o ToString(si') \o "|FALSE|0")

Spec == Init /\ [][Next]_vars
=============================================================================
