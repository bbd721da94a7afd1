------------------------------ MODULE ToolGen ------------------------------
\* Writes all configurations, and the graph of what can be done with the props
EXTENDS Tool

VARIABLES s, done

First == Start("none")
Init == s = First /\ done = FALSE

Write == /\ ~done /\ s = First
         /\ JsonSerialize(IOEnv.OUT,
              SetToSeq({ [config |-> c, text |-> Text(c.state)] :
                         c \in { x \in Configs : Sensible(x) } }))
         /\ done' = TRUE /\ s' = s

Next == \/ Write
        \/ /\ ~done
           /\ \E op \in Ops : /\ Enabled(s, op)
                              /\ s' = Do(s, op)
                              /\ PrintT("EDGE|" \o ToJson(s) \o "|" \o ToJson(op) \o "|"
                                                \o ToJson(s'))
           /\ UNCHANGED done

Spec == Init /\ [][Next]_<<s, done>>
=============================================================================
