------------------------------- MODULE Calls -------------------------------
(***************************************************************************)
(* What a renderer can be asked to do, as state machines whose transitions *)
(* are series of calls (see Dom). The reconciler only ever does these:     *)
(*                                                                         *)
(* "tree"   create an element and insert it below an element that is in    *)
(*          the tree, move an element within its parent (which is to       *)
(*          remove it and insert it again), and remove an element for good *)
(* "cells"  the same for one or two elements at the top level, of which    *)
(*          two cells change in between: an attribute, the listener of an  *)
(*          event, or a text                                               *)
(* "table"  go from any placement of elements to another one, where the    *)
(*          place of an element is an attribute of the element. Elements   *)
(*          might be asked to move to a place that is still taken.         *)
(*                                                                         *)
(* Which elements can be where depends on the toolkit: a profile has, for  *)
(* the classes of elements, the classes that can be inside. There can be   *)
(* just one element in a named place. An element with a need can only be   *)
(* inserted and stay next to an element of the other class.                *)
(***************************************************************************)
EXTENDS Dom, Integers, Json, IOUtils

Profiles == JsonDeserialize(IOEnv.PROFILES)

Root == "root"

RECURSIVE InTreeBelow(_, _)
InTreeBelow(ch, e) == {e} \cup UNION { InTreeBelow(ch, c) : c \in Range(ch[e]) }

(***************************************************************************)
(* Trees. A state has the class and children of all slots for elements     *)
(* (0 is the container). Elements that are not in the tree don't exist.    *)
(***************************************************************************)
TreeState(n) == [cls |-> [i \in 1..n |-> ""], ch |-> [i \in 0..n |-> <<>>]]

Present(s) == InTreeBelow(s.ch, 0)

Class(s, e) == IF e = 0 THEN Root ELSE s.cls[e]

KidsOf(p, c) == IF c \in DOMAIN p.kids THEN p.kids[c] ELSE NoAttrs

Fits(p, s, c, par) ==
  LET kids == KidsOf(p, Class(s, par)) IN
  /\ c \in DOMAIN kids
  /\ kids[c] # "" => \A o \in Range(s.ch[par]) : kids[s.cls[o]] # kids[c]
  /\ c \in DOMAIN p.need => \E o \in Range(s.ch[par]) : s.cls[o] = p.need[c]

Needed(p, s, e, par) ==
  \E o \in Range(s.ch[par]) : s.cls[o] \in DOMAIN p.need /\ p.need[s.cls[o]] = s.cls[e]

ParentIn(s, e) == CHOOSE par \in Present(s) : Has(s.ch[par], e)

Without(seq, e) == SelectSeq(seq, LAMBDA x : x # e)

Before(seq, a, e) ==
  IF a = 0 THEN Append(seq, e) ELSE InsertAt(seq, PosOf(seq, a), e)

TreeOps(p, s) ==
  LET here == Present(s) \ {0}
      gone == DOMAIN s.cls \ here
      \* The slots are all the same, so the first one is used
      new == IF gone = {} THEN {} ELSE {CHOOSE e \in gone : \A f \in gone : e <= f}
  IN { <<"new", e, c, par, a>> :
         <<e, c, par, a>> \in
           { t \in new \X Range(p.classes) \X Present(s) \X (here \cup {0}) :
               /\ Fits(p, s, t[2], t[3])
               /\ t[4] = 0 \/ Has(s.ch[t[3]], t[4]) } }
     \cup
     { <<"del", e>> : e \in { x \in here : ~Needed(p, s, x, ParentIn(s, x)) } }
     \cup
     { <<"move", e, a>> :
         <<e, a>> \in
           { t \in here \X (here \cup {0}) :
               LET par == ParentIn(s, t[1]) IN
               /\ Len(s.ch[par]) > 1
               /\ t[2] = 0 \/ (t[2] # t[1] /\ Has(s.ch[par], t[2])) } }

TreeDo(s, op) ==
  CASE op[1] = "new" ->
         [cls |-> [s.cls EXCEPT ![op[2]] = op[3]],
          ch |-> [s.ch EXCEPT ![op[4]] = Before(@, op[5], op[2])]]
    [] op[1] = "del" ->
         LET par == ParentIn(s, op[2])
             rest == InTreeBelow(s.ch, op[2])
         IN [cls |-> [e \in DOMAIN s.cls |-> IF e \in rest THEN "" ELSE s.cls[e]],
             ch |-> [e \in DOMAIN s.ch |->
                       IF e \in rest THEN <<>>
                       ELSE IF e = par THEN Without(s.ch[e], op[2]) ELSE s.ch[e]]]
    [] op[1] = "move" ->
         LET par == ParentIn(s, op[2]) IN
         [s EXCEPT !.ch[par] = Before(Without(@, op[2]), op[3], op[2])]

(***************************************************************************)
(* Cells. `cell` has, for both cells, the element and the values that it   *)
(* can have; the value 0 means that it is not set (which is not possible   *)
(* for a cell that must be set). The values of events are sets of two      *)
(* listeners: 3 is both. Elements are either in the tree or don't exist,   *)
(* except for the ones that are about to be inserted: attributes and       *)
(* listeners are set before that.                                          *)
(***************************************************************************)
CellState == [in |-> <<"no", "no">>, v |-> <<0, 0>>, order |-> <<>>]

CellValues(p, c) == IF p.cells[c].must THEN 1..p.cells[c].values
                    ELSE 0..p.cells[c].values

Of(p, e) == { c \in 1..2 : p.cells[c].el = e }

Els(p) == { p.cells[c].el : c \in 1..2 }

CellOps(p, s) ==
  { <<"make", e, v>> : <<e, v>> \in
      { t \in Els(p) \X ((0..p.cells[1].values) \X (0..p.cells[2].values)) :
          /\ s.in[t[1]] = "no"
          /\ \A c \in 1..2 : IF c \in Of(p, t[1]) THEN t[2][c] \in CellValues(p, c)
                            ELSE t[2][c] = s.v[c] } }
  \cup { <<"in", e, a>> : <<e, a>> \in
           { t \in Els(p) \X ({0} \cup Els(p)) :
               s.in[t[1]] = "made" /\ (t[2] = 0 \/ s.in[t[2]] = "in") } }
  \cup { <<"del", e>> : e \in { x \in Els(p) : s.in[x] = "in" } }
  \cup { <<"move", e>> : e \in { x \in Els(p) : s.in[x] = "in" } }
  \cup { <<"set", c, v>> : <<c, v>> \in
           { t \in (1..2) \X (CellValues(p, 1) \cup CellValues(p, 2)) :
               /\ s.in[p.cells[t[1]].el] = "in"
               /\ t[2] \in CellValues(p, t[1])
               /\ t[2] # s.v[t[1]] } }

CellDo(p, s, op) ==
  CASE op[1] = "make" -> [s EXCEPT !.in[op[2]] = "made", !.v = op[3]]
    [] op[1] = "in" -> [s EXCEPT !.in[op[2]] = "in", !.order = Before(@, op[3], op[2])]
    [] op[1] = "del" -> [s EXCEPT !.in[op[2]] = "no", !.order = Without(@, op[2]),
                                  !.v = [c \in 1..2 |-> IF p.cells[c].el = op[2]
                                                        THEN 0 ELSE s.v[c]]]
    [] op[1] = "move" -> [s EXCEPT !.order = Append(Without(@, op[2]), op[2])]
    [] op[1] = "set" -> [s EXCEPT !.v[op[2]] = op[3]]

(***************************************************************************)
(* Tables. A state has the place (0: none) of every element.               *)
(***************************************************************************)
Placements(p) ==
  { f \in [1..p.elements -> 0..p.places] :
      \A e, g \in 1..p.elements : e # g /\ f[e] # 0 => f[e] # f[g] }

Orders(set) == { q \in [1..Cardinality(set) -> set] : Range(q) = set }

\* All elements are visited in any order. There might be a move before the change.
\* (The elements are the same, so that not all orders are needed)
TableOps(p, s) ==
  { <<"place", f, q, moved>> :
      <<f, q, moved>> \in
        { t \in Placements(p) \X (UNION { Orders(x) : x \in SUBSET (1..p.elements) })
                 \X (SUBSET (1..p.elements)) :
            /\ Range(t[2]) = { e \in 1..p.elements : t[1][e] # 0 }
            /\ t[1] # s
            /\ Cardinality(t[3]) <= 1
            /\ \A e \in t[3] : s[e] # 0 /\ t[1][e] # 0 } }
=============================================================================
