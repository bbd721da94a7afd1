---------------------------- MODULE ImportTrace ----------------------------
\* Judges what was observed
EXTENDS Import

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES ti, si

Init == ti \in 1..Len(Traces) /\ si = 0

\* A trace of one kind; all rows are judged in one step: {<<row, clause>>}
Bad(t) ==
  CASE t.kind = "content" ->
         UNION { { <<i, c>> : c \in ContentClauses(t.segs[i]) } : i \in 1..Len(t.segs) }
    [] t.kind = "find" ->
         UNION { { <<i, c>> : c \in FindClauses(t.segs[i]) } : i \in 1..Len(t.segs) }
    [] OTHER -> Run(t.segs, 1, Start)

Next == /\ si = 0
        /\ si' = 1
        /\ ti' = ti
        /\ LET b == Bad(Traces[ti]) IN
             \A i \in { x[1] : x \in b } :
               PrintT("BAD|" \o ToString(ti) \o "|" \o ToString(i) \o "|"
                             \o ToString({ x[2] : x \in { y \in b : y[1] = i } }))
        /\ PrintT("DONE|" \o ToString(ti) \o "|" \o ToString(Len(Traces[ti].segs)) \o "|FALSE|0")

Spec == Init /\ [][Next]_<<ti, si>>
=============================================================================
