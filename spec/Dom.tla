-------------------------------- MODULE Dom --------------------------------
(***************************************************************************)
(* The protocol between the reconciler and a renderer: what each call does *)
(* to the DOM and when it is allowed.                                      *)
(*                                                                         *)
(* The DOM is a function from element ids to records:                      *)
(*   t   type       p  parent (0: detached)     c  children (sequence)     *)
(*   a   attributes (set of pairs)              l  listeners               *)
(*   tx  text       ow chain of owners (uids of component instances)       *)
(* Element 1 is the container.                                             *)
(*                                                                         *)
(* Calls are sequences:                                                    *)
(*   <<"ce", id, type>>  <<"ct", id>>  <<"in", id, parent, anchor>>        *)
(*   <<"rm", id, parent>>  <<"st", id, text>>                              *)
(*   <<"sa", id, name, value>>  <<"ra", id, name>>  <<"ow", id, chain>>    *)
(*   <<"al", id, event, handler>>  <<"rl", id, event, handler>>            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC

Container == 1

NoAttrs == [x \in {} |-> ""]

NewEl(t) == [t |-> t, p |-> 0, c |-> <<>>, a |-> NoAttrs, l |-> {}, tx |-> "", ow |-> <<>>]

InitDom == (Container :> NewEl("#container"))

CallOps == {"ce", "ct", "in", "rm", "st", "sa", "ra", "ow", "al", "rl"}

RECURSIVE Connected(_, _)
Connected(dom, id) ==
  \/ id = Container
  \/ id \in DOMAIN dom /\ dom[id].p # 0 /\ Connected(dom, dom[id].p)

RECURSIVE IsAncestor(_, _, _)
\* Is a the same as or an ancestor of b?
IsAncestor(dom, a, b) ==
  a = b \/ (b # 0 /\ b \in DOMAIN dom /\ dom[b].p # 0 /\ IsAncestor(dom, a, dom[b].p))

PosOf(seq, x) == CHOOSE i \in 1..Len(seq) : seq[i] = x
Has(seq, x) == \E i \in 1..Len(seq) : seq[i] = x

\* What is wrong with a call: a set of clauses (empty when the call is allowed)
Wrong(dom, op) ==
  LET id == op[2] IN
  CASE op[1] \in {"ce", "ct"} ->
         IF id \in DOMAIN dom THEN {"proto.create-twice"} ELSE {}
    [] op[1] \notin {"ce", "ct"} /\ id \notin DOMAIN dom -> {"proto.unknown-element"}
    [] op[1] = "in" ->
         (IF op[3] \notin DOMAIN dom THEN {"proto.insert-unknown-parent"}
          ELSE IF IsAncestor(dom, id, op[3]) THEN {"proto.insert-cycle"} ELSE {})
         \cup (IF dom[id].p # 0 THEN {"proto.insert-attached"} ELSE {})
         \cup (IF op[4] # 0 /\ (op[3] \notin DOMAIN dom \/ ~Has(dom[op[3]].c, op[4]))
               THEN {"proto.anchor-not-a-child"} ELSE {})
    [] op[1] = "rm" ->
         IF op[3] \notin DOMAIN dom \/ ~Has(dom[op[3]].c, id)
         THEN {"proto.remove-not-a-child"} ELSE {}
    [] op[1] = "st" ->
         (IF dom[id].t # "TEXT_ELEMENT" THEN {"proto.text-of-element"} ELSE {})
    [] op[1] = "sa" ->
         (IF dom[id].t = "TEXT_ELEMENT" THEN {"proto.attribute-of-text"} ELSE {})
         \cup (IF op[3] \in DOMAIN dom[id].a /\ dom[id].a[op[3]] = op[4]
               THEN {"attr.set-unchanged"} ELSE {})
    [] op[1] = "ra" ->
         IF op[3] \notin DOMAIN dom[id].a THEN {"proto.remove-unset-attribute"} ELSE {}
    [] op[1] = "al" ->
         IF <<op[3], op[4]>> \in dom[id].l THEN {"proto.listener-added-twice"} ELSE {}
    [] op[1] = "rl" ->
         IF <<op[3], op[4]>> \notin dom[id].l THEN {"proto.remove-unknown-listener"} ELSE {}
    [] OTHER -> {}

\* The DOM after the call. A call that is not allowed has no effect.
Call(dom, op) ==
  LET id == op[2] IN
  CASE op[1] = "ce" -> (id :> NewEl(op[3])) @@ dom
    [] op[1] = "ct" -> (id :> NewEl("TEXT_ELEMENT")) @@ dom
    [] op[1] = "in" ->
         LET par == op[3]
             cs == dom[par].c
             at == IF op[4] = 0 THEN Len(cs) + 1 ELSE PosOf(cs, op[4])
         IN [dom EXCEPT ![id].p = par, ![par].c = InsertAt(cs, at, id)]
    [] op[1] = "rm" ->
         [dom EXCEPT ![id].p = 0, ![op[3]].c = RemoveAt(@, PosOf(@, id))]
    [] op[1] = "st" -> [dom EXCEPT ![id].tx = op[3]]
    [] op[1] = "sa" -> [dom EXCEPT ![id].a = (op[3] :> op[4]) @@ @]
    [] op[1] = "ra" -> [dom EXCEPT ![id].a = [x \in DOMAIN @ \ {op[3]} |-> @[x]]]
    [] op[1] = "ow" -> [dom EXCEPT ![id].ow = op[3]]
    [] op[1] = "al" -> [dom EXCEPT ![id].l = @ \cup {<<op[3], op[4]>>}]
    [] op[1] = "rl" -> [dom EXCEPT ![id].l = @ \ {<<op[3], op[4]>>}]
    [] OTHER -> dom

Fatal(w) == \E c \in w : c \notin {"attr.set-unchanged"}

Step(dom, op) == IF Fatal(Wrong(dom, op)) THEN dom ELSE Call(dom, op)

\* Does the call change the tree below the container?
InTree(dom, op) ==
  CASE op[1] = "in" -> op[3] \in DOMAIN dom /\ Connected(dom, op[3])
    [] op[1] \in {"ce", "ct"} -> FALSE
    [] OTHER -> Connected(dom, op[2])

(***************************************************************************)
(* What a renderer shows, according to itself. A snapshot is a sequence of *)
(* <<id, type, text, attributes, children>> for the container and          *)
(* everything below it. `dflt` has the value of the attributes that are    *)
(* not set: a function from types to functions. The elements in a parent   *)
(* of one of the types in `loose` have no order.                           *)
(***************************************************************************)
RECURSIVE Below(_, _)
Below(dom, id) == {id} \cup UNION { Below(dom, c) : c \in Range(dom[id].c) }

AttrFn(ps) == [x \in { ps[i][1] : i \in 1..Len(ps) } |->
                 ps[CHOOSE i \in 1..Len(ps) : ps[i][1] = x][2]]

Snapshot(dom, snap, dflt, loose) ==
  LET ids == { snap[i][1] : i \in 1..Len(snap) }
      dist(ids2) == Cardinality(ids2)
  IN (IF ids # Below(dom, Container) \/ dist(ids) # Len(snap) THEN {"snap.elements"} ELSE {})
     \cup UNION {
       LET o == snap[i] IN
       IF o[1] \notin DOMAIN dom THEN {"snap.elements"}
       ELSE LET d == dom[o[1]]
                want == IF d.t \in DOMAIN dflt THEN d.a @@ dflt[d.t] ELSE d.a
                got == AttrFn(o[4])
            IN (IF d.t # o[2] THEN {"snap.type"} ELSE {})
               \cup (IF d.t = "TEXT_ELEMENT" /\ d.tx # o[3] THEN {"snap.text"} ELSE {})
               \cup (IF d.t = "TEXT_ELEMENT" \/ o[1] = Container THEN {}
                     ELSE IF DOMAIN want # DOMAIN got THEN {"snap.attribute-set"}
                     ELSE IF \E x \in DOMAIN want : want[x] # got[x]
                     THEN {"snap.attribute-value"} ELSE {})
               \cup (IF o[2] \in loose
                     THEN IF Range(d.c) # Range(o[5]) \/ Len(d.c) # Len(o[5])
                          THEN {"snap.children"} ELSE {}
                     ELSE IF d.c # o[5] THEN {"snap.children"} ELSE {})
       : i \in 1..Len(snap) }
=============================================================================
