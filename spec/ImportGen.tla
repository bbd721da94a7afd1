----------------------------- MODULE ImportGen -----------------------------
\* Writes all contents, all layouts, and the graph of the histories
EXTENDS Import

VARIABLES s, done

\* The transitions are explored by TLC; every one is printed
Init == s = Start /\ done = FALSE

Key(x) == [disk |-> x[1], mod |-> x[2]]

Write == /\ ~done /\ s = Start
         /\ JsonSerialize(IOEnv.OUT,
              [contents |-> SetToSeq({ [config |-> c, lines |-> Lines(c)] : c \in Configs }),
               layouts |-> SetToSeq({ [i \in 1..Dirs |-> SetToSeq(l[i])] : l \in Layouts })])
         /\ done' = TRUE /\ s' = s

Next == \/ Write
        \/ /\ ~done
           /\ \E op \in Ops : /\ Enabled(s, op)
                              /\ s' = Do(s, op)[1]
                              /\ PrintT("EDGE|" \o ToJson(Key(s)) \o "|" \o ToJson(op) \o "|"
                                                \o ToJson(Key(s')))
           /\ UNCHANGED done

Spec == Init /\ [][Next]_<<s, done>>

\* Sanity of the model: the modules never contain something that is not valid
TypeOK == \A f \in Files : s[1][f] \in Contents \cup {"none"} /\ s[2][f] \in {"v1", "v2", "none"}
=============================================================================
