------------------------------- MODULE Equiv -------------------------------
(***************************************************************************)
(* Event handlers: what they do when they are called, when a renderer may  *)
(* keep one in the place of another, and when it has to.                   *)
(*                                                                         *)
(* A handler is a sequence:                                                *)
(*   <<kind, v>>        a callable that calls rec(v) when it is called. The*)
(*                      kind tells how v gets there: constant, default,    *)
(*                      closure, partial argument, bound object, global... *)
(*   <<kind, v, w>>     one that calls rec((v, w))                         *)
(*   <<kind, h>>        a callable that calls the handler h                *)
(* Values are strings, of a type and a literal ("i:1", "b:True").          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

\* The value is part of the code
CodeKinds == {"lambda", "def", "inner", "tuple", "nested-tuple", "set", "kwarg", "branch",
              "slice"}
\* The value is found when the callable is created
DataKinds == {"default", "kwdefault", "closure", "closure2", "cell-late", "partial",
              "partial-kw", "partial2", "closure-list", "closure-tuple", "closure-dict",
              "default-tuple", "generator", "self", "mutual"}
\* The value is in an object
ObjectKinds == {"bound", "bound-equal", "callable", "callable-equal", "class-method",
                "builtin", "object", "module"}
\* The value is put there after the handler is installed
LateKinds == {"late-list", "late-dict", "late-record", "late-bound"}
\* Names that are looked up when it is called, with v the result
NameKinds == {"global", "attribute", "method", "static", "operator"}

Wraps == {"call", "call-default", "call-kwdefault", "partial-of", "partial-arg",
          "call-tuple", "wrapped", "call-nested"}
Pairs == {"two", "two-defaults", "two-kwdefaults", "two-partial", "two-consts",
          "two-closures", "two-names"}

\* Functions of a parameter x that is passed on, of different sorts. They are called
\* without arguments, with a positional one, and with a keyword; "d" is the default
Sigs == [pos |-> <<"s:d", "s:p", "s:p">>,
         posonly |-> <<"s:d", "s:p", "!TypeError">>,
         kwonly |-> <<"s:d", "!TypeError", "s:p">>,
         varargs |-> <<"s:d", "s:p", "!TypeError">>,
         varkw |-> <<"s:d", "!TypeError", "s:p">>,
         required |-> <<"!TypeError", "s:p", "s:p">>,
         required_posonly |-> <<"!TypeError", "s:p", "!TypeError">>,
         required_kwonly |-> <<"!TypeError", "!TypeError", "s:p">>]
Sig == { <<k, v>> : k \in {"sig", "sig-closure"}, v \in DOMAIN Sigs }

Kinds1 == CodeKinds \cup DataKinds \cup ObjectKinds \cup LateKinds

Values == {"i:1", "b:True", "f:1.0", "i:0", "b:False", "f:0.0", "f:-0.0", "s:1", "s:",
           "y:1", "n:None", "c:1j", "e:Ellipsis"}
Names == {"s:a", "s:b"}

Simple == { <<k, v>> : k \in Kinds1, v \in Values } \cup { <<k, v>> : k \in NameKinds, v \in Names }
Few == { <<k, v>> : k \in Kinds1, v \in {"i:1", "b:True", "s:a"} }
       \cup { <<k, v>> : k \in NameKinds, v \in Names }
Two == { <<k, v, w>> : k \in Pairs, v, w \in {"i:1", "b:True", "i:2"} }

(***************************************************************************)
(* What a handler does                                                     *)
(***************************************************************************)
RECURSIVE Effect(_)
Effect(h) ==
  IF h[1] \in Wraps THEN Effect(h[2])
  ELSE IF h[1] \in Pairs THEN <<h[2], h[3]>>
  ELSE IF h[1] \in {"sig", "sig-closure"} THEN Sigs[h[2]]
  ELSE <<h[2]>>

RECURSIVE Depth(_)
Depth(h) == IF h[1] \in Wraps THEN 1 + Depth(h[2]) ELSE 0

\* Callables of these kinds, made twice from the same source with the same values,
\* can be recognised. (The others are of objects that are only equal to themselves.)
RECURSIVE Lasting(_)
Lasting(h) ==
  IF h[1] \in Wraps \ {"call-tuple"} THEN Lasting(h[2])
  ELSE h[1] \in {"lambda", "def", "default", "kwdefault", "closure", "closure2", "partial",
                 "partial-kw", "partial2", "global", "attribute", "method", "static",
                 "inner", "two", "two-defaults", "two-kwdefaults", "two-partial",
                 "two-consts", "two-closures", "two-names", "branch", "tuple", "kwarg",
                 "self", "closure-tuple", "sig"}

(***************************************************************************)
(* Generation: the pairs of handlers that succeed each other.              *)
(***************************************************************************)
Level == IF "LEVEL" \in DOMAIN IOEnv THEN IOEnv.LEVEL ELSE "quick"

W1 == { <<w, h>> : w \in Wraps, h \in IF Level = "quick" THEN
          { x \in Few : x[2] \in {"i:1", "b:True"} /\ x[1] \in {"lambda", "default", "closure",
             "partial", "bound", "bound-equal", "callable-equal", "self", "tuple", "module"} }
           \cup { x \in Few : x[1] \in NameKinds }
          ELSE Few }
W2 == { <<w, h>> : w \in Wraps, h \in { x \in W1 : x[2][1] \in {"closure", "tuple", "global"} } }

Edges ==
  \* All values of one kind, in both orders, and once more the same
  { e \in Simple \X Simple : e[1][1] = e[2][1] }
  \cup { e \in Sig \X Sig : e[1][1] = e[2][1] }
  \* Different kinds
  \cup { e \in Few \X Few : Level # "quick" \/ e[1][2] = "i:1" }
  \cup { e \in Two \X Two : e[1][1] = e[2][1] }
  \* Handlers that call other handlers
  \cup { e \in W1 \X W1 : e[1][1] = e[2][1]
                          /\ (e[1][2][1] = e[2][2][1] \/ Level # "quick") }
  \cup { e \in W1 \X Few : e[1][2] = e[2] }
  \cup { e \in Few \X W1 : e[1] = e[2][2] }
  \cup { e \in W2 \X W2 : e[1][1] = e[2][1] /\ e[1][2][1] = e[2][2][1]
                          /\ e[1][2][2][1] = e[2][2][2][1] }

(***************************************************************************)
(* Judgement of what was observed: rows <<handler, fired, same, side, exc, *)
(* removed, added>> for a series of handlers that succeed each other.      *)
(*   fired    the values that were recorded when the event was fired       *)
(*   side     the values that were recorded while rendering                *)
(***************************************************************************)
RowClauses(prev, row) ==
  LET want == Effect(row.h) IN
  (IF row.exc # <<>> THEN {"exc." \o row.exc[1]} ELSE {})
  \cup (IF row.exc = <<>> /\ row.fired # want THEN {"same.wrong-handler"} ELSE {})
  \cup (IF row.side # <<>> THEN {"same.side-effect"} ELSE {})
  \cup (IF row.exc = <<>> /\ (row.calls > 0) /\ prev.h = row.h /\ Lasting(row.h)
        THEN {"same.churn"} ELSE {})

=============================================================================
