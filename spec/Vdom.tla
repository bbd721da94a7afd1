------------------------------- MODULE Vdom -------------------------------
(***************************************************************************)
(* The committed tree and how a new description changes it.                *)
(*                                                                         *)
(* A node of the tree is a description together with what is kept as long  *)
(* as the node exists:                                                     *)
(*   rid  the element in the DOM (0: not known yet)                        *)
(*   uid  the component instance (0: not known yet)                        *)
(*   st   the state of the component instance                              *)
(*   path position in the tree (used as identity within one tree)          *)
(*   isnew  whether the node was created by the last patch                 *)
(*   rd   the names that are looked up for the content of a component      *)
(*   lag  whether the node changed while no pass was necessary             *)
(*   gu, su  what the last patch changed: the group of children and the    *)
(*        node itself ("M": certainly changed the DOM, "m": may have       *)
(*        been touched, "": untouched)                                     *)
(*   old  the nodes that the last patch removed from the children          *)
(*   mv   whether the last patch changed the order of kept children        *)
(***************************************************************************)
EXTENDS Tmpl, FiniteSets

\* A definition: n (name), fn ("T" for a function component), tm (template),
\* st (initial state), self (attributes), prov (what is provided by the constructor),
\* dprov (what is provided at the start of every render, expressions): pairs
Def(defs, name) == LET i == CHOOSE i \in 1..Len(defs) : defs[i].n = name IN defs[i]

IsInst(n) == n.k = "co" /\ n.fn = "F"

Range2(s) == { s[i] : i \in 1..Len(s) }

(***************************************************************************)
(* Matching: the description takes the first old sibling with the same key *)
(* (nodes without key match each other, in order) which is not taken yet.  *)
(* When it is of the same type, then it is kept.                           *)
(***************************************************************************)
RECURSIVE MatchFrom(_, _, _, _)
MatchFrom(olds, ds, i, free) ==
  IF i > Len(ds) THEN <<>>
  ELSE LET cand == { j \in free : olds[j].key = ds[i].key }
           j == IF cand = {} THEN 0 ELSE CHOOSE x \in cand : \A y \in cand : x <= y
           kept == j # 0 /\ olds[j].k = ds[i].k /\ olds[j].t = ds[i].t
       IN << IF kept THEN j ELSE 0 >> \o MatchFrom(olds, ds, i + 1, free \ {j})

Match(olds, ds) == MatchFrom(olds, ds, 1, 1..Len(olds))

\* The elements of a list of nodes, in order, without the nodes that have none
RECURSIVE Elements(_), ElementsOf(_)
ElementsOf(n) == IF n.k \in {"el", "tx"} THEN <<n>> ELSE Elements(n.c)
Elements(ns) == FlattenSeq([i \in 1..Len(ns) |-> ElementsOf(ns[i])])

FirstEl(n) == LET es == ElementsOf(n) IN IF es = <<>> THEN 0 ELSE es[1].rid

\* All nodes at or below a list of nodes
RECURSIVE Nodes(_)
Nodes(ns) == FlattenSeq([i \in 1..Len(ns) |-> <<ns[i]>> \o Nodes(ns[i].c)])
Insts(ns) == SelectSeq(Nodes(ns), IsInst)

\* The same, with children before their parents
RECURSIVE NodesUp(_)
NodesUp(ns) == FlattenSeq([i \in 1..Len(ns) |-> NodesUp(ns[i].c) \o <<ns[i]>>])
InstsUp(ns) == SelectSeq(NodesUp(ns), IsInst)

\* Order of the kept nodes: does the relative order of the nodes change?
Reordered(m) ==
  \E i, j \in 1..Len(m) : i < j /\ m[i] # 0 /\ m[j] # 0 /\ m[i] > m[j]

\* Reordered, restricted to nodes that have elements before and after
ReorderedEls(olds, m, new) ==
  \E i, j \in 1..Len(m) :
     /\ i < j /\ m[i] # 0 /\ m[j] # 0 /\ m[i] > m[j]
     /\ \E e \in Range2(ElementsOf(new[i])) : ~e.isnew
     /\ \E e \in Range2(ElementsOf(new[j])) : ~e.isnew

SameEvents(a, b) ==
  /\ DOMAIN a = DOMAIN b
  /\ \A e \in DOMAIN a : a[e].l = b[e].l /\ a[e].k = b[e].k /\ Len(a[e].o) = Len(b[e].o)

\* Handlers of kind "dyn" look up values when they are called, so they
\* can be considered to be equal when their current values are not.
SomeDyn(a) == \E e \in DOMAIN a : a[e].k = "dyn"

SelfChange(o, d) ==
  IF o.a # d.a \/ (~SameEvents(o.ev, d.ev) /\ ~SomeDyn(o.ev) /\ ~SomeDyn(d.ev)) THEN "M"
  ELSE IF SomeDyn(o.ev) \/ SomeDyn(d.ev) THEN "m"
  ELSE ""

(***************************************************************************)
(* ctx: chain (instances above), prov (their provided values), glob, defs  *)
(***************************************************************************)
RECURSIVE Patch(_, _, _, _), PatchNode(_, _, _, _)

Blank == [k |-> "none"]

InstEnv(def, d, st, chain, ctx) ==
  [sc |-> EmptyFn, props |-> d.a, pev |-> d.ev, st |-> st,
   self |-> IF def.fn = "T" THEN EmptyFn ELSE PairsToFn(def.self),
   glob |-> ctx.glob,
   slots |-> d.sl, chain |-> chain, prov |-> ctx.prov]

\* o is the node that is kept, or Blank
PatchNode(o, d, path, ctx) ==
  LET new == o.k = "none"
      base == [k |-> d.k, t |-> d.t, key |-> d.key, a |-> d.a, ev |-> d.ev, ow |-> d.ow,
               rid |-> IF new THEN 0 ELSE o.rid,
               uid |-> IF new THEN 0 ELSE o.uid,
               path |-> path, isnew |-> new,
               su |-> IF new THEN "" ELSE SelfChange(o, d),
               lag |-> ~new /\ (o.lag \/ SelfChange(o, d) # "")]
      oc == IF new THEN <<>> ELSE o.c
  IN
  IF d.k # "co" THEN
    LET g == Patch(oc, d.c, path, ctx) IN
    base @@ [c |-> g.c, gu |-> g.gu, old |-> g.old, mv |-> g.mv, st |-> EmptyFn, fn |-> "F",
             rd |-> {}]
  ELSE
    LET def == Def(ctx.defs, d.t)
        st == IF new THEN PairsToFn(def.st) ELSE o.st
        isfn == def.fn = "T"
        chain == IF isfn THEN <<>> ELSE <<path>> \o ctx.chain
        env == InstEnv(def, d, st, chain, ctx)
        ctx2 == IF isfn THEN ctx
                ELSE [ctx EXCEPT !.chain = chain,
                                 !.prov = <<EvPairs(def.dprov, env)
                                            @@ PairsToFn(def.prov)>> \o @]
        g == Patch(oc, Expand(def.tm, env), path, ctx2)
    IN base @@ [c |-> g.c, gu |-> g.gu, old |-> g.old, mv |-> g.mv, st |-> st, fn |-> def.fn,
                rd |-> ReadT(def.tm, env)
                       \cup UNION { ReadE(def.dprov[i][2], env) : i \in 1..Len(def.dprov) }]

Patch(olds, ds, path, ctx) ==
  LET m == Match(olds, ds)
      new == [i \in 1..Len(ds) |->
                PatchNode(IF m[i] = 0 THEN Blank ELSE olds[m[i]], ds[i],
                          Append(path, i), ctx)]
      gone == { j \in 1..Len(olds) : \A i \in 1..Len(m) : m[i] # j }
      removed == SetToSortSeq(gone, LAMBDA a, b : a < b)
      old == [i \in 1..Len(removed) |-> olds[removed[i]]]
      mv == Reordered(m)
      placed == { i \in 1..Len(m) : m[i] = 0 }
  IN [ c |-> new,
       old |-> old,
       mv |-> mv,
       gu |-> IF \/ \E i \in 1..Len(old) : ElementsOf(old[i]) # <<>>
                 \/ \E i \in placed : ElementsOf(new[i]) # <<>>
                 \/ ReorderedEls(olds, m, new)
              THEN "M"
              ELSE IF old # <<>> \/ placed # {} \/ mv THEN "m" ELSE "" ]

(***************************************************************************)
(* What follows from a patch.                                              *)
(***************************************************************************)
\* All nodes that are removed: the removed children and everything below
Removed(ns) == FlattenSeq([i \in 1..Len(Nodes(ns)) |-> Nodes(Nodes(ns)[i].old)])

\* Nodes within the reach of a component: down to (and including) the next instances
RECURSIVE Region(_)
Region(n) == FlattenSeq([i \in 1..Len(n.c) |->
  <<n.c[i]>> \o (IF IsInst(n.c[i]) THEN <<>> ELSE Region(n.c[i]))])

\* Must `updated` of a kept instance be called? When its DOM tree is changed
\* (it may also be called when only its props are changed).
MustUpdate(n) ==
  \/ n.gu = "M"
  \/ \E r \in Range2(Region(n)) :
       ~r.isnew /\ ((r.su = "M" /\ r.k # "co") \/ (r.gu = "M" /\ ~IsInst(r)))

\* Might it be called? `par` tells whether a reordering affects the node itself
MayUpdate(n) ==
  \/ n.su # "" \/ n.gu # "" \/ n.lag
  \/ \E r \in Range2(Region(n)) :
       ~r.isnew /\ ((r.su # "" /\ ~IsInst(r)) \/ (r.gu # "" /\ ~IsInst(r)))

\* Paths of the nodes without element that are part of a group that is reordered
\* (the elements below such nodes are moved)
RECURSIVE Shaken(_, _)
Shaken(ns, moved) ==
  UNION { LET n == ns[i] IN
          IF n.k \in {"el", "tx"} THEN Shaken(n.c, n.mv)
          ELSE (IF moved THEN {n.path} ELSE {}) \cup Shaken(n.c, moved \/ n.mv)
        : i \in 1..Len(ns) }

\* Instances for which a reordering above may call `updated`
ShakenRegion(n, sh) ==
  n.path \in sh \/ \E r \in Range2(Region(n)) : r.path \in sh /\ ~IsInst(r)

\* Elements that may be taken out of the DOM and be inserted again
RECURSIVE Movable(_, _)
Movable(ns, moved) ==
  UNION { LET n == ns[i] IN
          IF n.k \in {"el", "tx"}
          THEN (IF moved THEN {n.rid} ELSE {}) \cup Movable(n.c, n.mv)
          ELSE Movable(n.c, moved \/ n.mv)
        : i \in 1..Len(ns) }
=============================================================================
