------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Checks recorded histories of the code against the specification. Every  *)
(* history is one behaviour: its segments are consumed one by one.         *)
(* Violated clauses are printed, and so is the end of every history.       *)
(***************************************************************************)
EXTENDS Cg, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES ti, si, s

vars == <<ti, si, s>>

T == Traces[ti]

Init == /\ ti \in 1..Len(Traces)
        /\ si = 0
        /\ s = [Init0(Traces[ti].defs, PairsToFn(Traces[ti].glob)) EXCEPT
                  !.dflt = LET d == PairsToFn(Traces[ti].dflt) IN
                           [t \in DOMAIN d |-> PairsToFn(d[t])],
                  !.loose = Range(Traces[ti].loose)]

Report == 
  /\ s'.bad # {} => PrintT("BAD|" \o ToString(ti) \o "|" \o ToString(si') \o "|"
                           \o ToString(s'.bad))
  /\ (si' = Len(T.segs) \/ s'.dead) =>
        PrintT("DONE|" \o ToString(ti) \o "|" \o ToString(si') \o "|"
               \o ToString(s'.dead) \o "|" \o ToString(s'.n.els))

Next == /\ si < Len(T.segs)
        /\ ~s.dead
        /\ si' = si + 1
        /\ ti' = ti
        /\ s' = Pass(s, T.segs[si + 1])
        /\ Report

Spec == Init /\ [][Next]_vars
=============================================================================
