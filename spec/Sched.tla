------------------------------- MODULE Sched -------------------------------
(***************************************************************************)
(* The scheduling of passes with an event loop, as it can be observed:     *)
(* changes are made at any moment, and the event loop gives control to     *)
(* units of work. A change makes a pass start all over with the latest     *)
(* state; a tree is committed with the last unit.                          *)
(*                                                                         *)
(* The changes are of different kinds:                                     *)
(*   s  the state of an instance        p  the props of the root           *)
(*   l  the items of a list             r  another call to render          *)
(*   n  a value that is not used (needs no pass)                           *)
(*                                                                         *)
(* `h` is the history, which the harness replays in the code: a kind, or   *)
(* "t" for a unit of work. Histories end when there is nothing left to do. *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Kinds == {"s", "p", "l", "r", "n"}
MaxChanges == IF IOEnv.LEVEL = "thorough" THEN 3 ELSE 2
MaxUnits == IF IOEnv.LEVEL = "thorough" THEN 8 ELSE 9

VARIABLES want,   \* number of the latest state
          shown,  \* number of the state that is shown
          wip,    \* number of the state that is being built, 0: none
          unit,   \* how many units of that are done
          changes,
          h

vars == <<want, shown, wip, unit, changes, h>>

Init == /\ want = 1 /\ shown = 0 /\ wip = 1 /\ unit = 0
        /\ changes = 0 /\ h = <<"r">>

Change(kind) ==
  /\ changes < MaxChanges
  /\ changes' = changes + 1
  /\ h' = Append(h, kind)
  /\ IF kind = "n" THEN UNCHANGED <<want, shown, wip, unit>>
     ELSE /\ want' = want + 1
          /\ wip' = want'
          /\ unit' = 0
          /\ UNCHANGED shown

\* The last units are the same for the observer, so the number of units varies
Work ==
  /\ wip # 0
  /\ h' = Append(h, "t")
  /\ IF unit + 1 = MaxUnits THEN shown' = wip /\ wip' = 0 /\ unit' = 0
     ELSE unit' = unit + 1 /\ UNCHANGED <<shown, wip>>
  /\ UNCHANGED <<want, changes>>

Next == Work \/ \E k \in Kinds : Change(k)

Spec == Init /\ [][Next]_vars /\ WF_vars(Work)

NothingLost == wip = 0 => shown = want
Latest == wip # 0 => wip = want
Monotonic == [][shown' >= shown]_shown
Settles == <>[](wip = 0 /\ shown = want)

\* Histories in which the last thing that happened is a commit
Complete == wip = 0 /\ changes = MaxChanges /\ h[Len(h)] = "t"

Printed == Complete => PrintT("HIST|" \o ToJson(h))
=============================================================================
