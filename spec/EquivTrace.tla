----------------------------- MODULE EquivTrace -----------------------------
\* Judges the recorded series of handlers
EXTENDS Equiv

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES ti, si

vars == <<ti, si>>

Init == ti \in 1..Len(Traces) /\ si = 0

Bad(i) == LET rows == Traces[ti].segs IN
          RowClauses(IF i = 1 THEN [h |-> <<>>] ELSE rows[i - 1], rows[i])

Next == /\ si < Len(Traces[ti].segs)
        /\ si' = si + 1
        /\ ti' = ti
        /\ Bad(si') # {} => PrintT("BAD|" \o ToString(ti) \o "|" \o ToString(si') \o "|"
                                   \o ToString(Bad(si')))
        /\ si' = Len(Traces[ti].segs) =>
             PrintT("DONE|" \o ToString(ti) \o "|" \o ToString(si') \o "|FALSE|0")

Spec == Init /\ [][Next]_vars
=============================================================================
