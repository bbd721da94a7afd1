--------------------------------- MODULE Cg ---------------------------------
(***************************************************************************)
(* One rendering pass of collagraph, as seen from the outside: the calls   *)
(* to the renderer, the hooks and the handlers that run, and what they     *)
(* have to amount to.                                                      *)
(*                                                                         *)
(* `Pass(s, seg)` takes the state s and one segment of a recorded (or      *)
(* generated) history: some writes to the state of the program, followed   *)
(* by everything that was observed in the pass that these writes lead to.  *)
(* It results in the next state, of which `bad` is the set of clauses that *)
(* are violated by the segment.                                            *)
(***************************************************************************)
EXTENDS Vdom, Dom

(***************************************************************************)
(* The state                                                               *)
(*   defs, glob   component definitions, names of the module               *)
(*   rt     description that was passed to render (sequence of 0 or 1)     *)
(*   root   the (reactive) props of the root                               *)
(*   tree   the committed tree (children of the container)                 *)
(*   dom    the DOM, according to the renderer calls                       *)
(*   live   instances that are mounted and not unmounted                   *)
(*   seen   elements that have been part of the tree                       *)
(*   seenU  instances that have ever been mounted                          *)
(***************************************************************************)
Init0(defs, glob) ==
  [defs |-> defs, glob |-> glob, dflt |-> EmptyFn, loose |-> {}, rt |-> <<>>, root |-> EmptyFn, tree |-> <<>>,
   dom |-> InitDom, live |-> {}, seen |-> {}, seenU |-> {}, dead |-> FALSE,
   bad |-> {}, n |-> [els |-> 0, insts |-> 0, evs |-> 0]]

(***************************************************************************)
(* Writes: <<uid, key, value>> sets a key of the state of an instance, or  *)
(* of the root props when uid is 0.                                        *)
(***************************************************************************)
RECURSIVE SetState(_, _, _, _)
SetState(ns, uid, k, v) ==
  [i \in 1..Len(ns) |->
     [ns[i] EXCEPT
        !.st = IF ns[i].uid = uid THEN (k :> v) @@ @ ELSE @,
        !.c = SetState(@, uid, k, v)]]

Write(s, w) ==
  IF w[1] = 0 THEN [s EXCEPT !.root = (w[2] :> w[3]) @@ @]
  ELSE [s EXCEPT !.tree = SetState(@, w[1], w[2], w[3])]

Writes(s, ws) == FoldLeft(Write, s, ws)

(***************************************************************************)
(* The tree that belongs to the current state                              *)
(***************************************************************************)
RootEnv(s) ==
  [sc |-> EmptyFn, props |-> s.root, pev |-> EmptyFn, st |-> EmptyFn, self |-> EmptyFn, glob |-> s.glob,
   slots |-> <<>>, chain |-> <<>>, prov |-> <<>>]

NewTree(s) ==
  Patch(s.tree, IF s.rt = <<>> THEN <<>> ELSE Expand(s.rt[1], RootEnv(s)), <<>>,
        [chain |-> <<>>, prov |-> <<>>, glob |-> s.glob, defs |-> s.defs])

(***************************************************************************)
(* Relevance: a write of a value that is not looked up by any component,   *)
(* or of a value that is already there, does not lead to anything.         *)
(***************************************************************************)
RECURSIVE Read(_)
Read(ns) == UNION { ns[i].rd \cup Read(ns[i].c) : i \in 1..Len(ns) }

Relevant(s, w) ==
  LET rd == Read(s.tree)
      names == { r \in rd : r[2] \in {w[2], "*"} }
  IN IF w[1] = 0
     THEN \/ s.rt = <<>> \/ s.rt[1].k # "co"
          \/ s.rt[1].a # <<>> \/ s.rt[1].ev # <<>>
          \/ (/\ ~(w[2] \in DOMAIN s.root /\ s.root[w[2]] = w[3])
              /\ \E r \in names : r[1] = <<>> \/ r[1] = <<<<1>>>>)
     ELSE \E n \in Range2(Insts(s.tree)) :
            /\ n.uid = w[1]
            /\ ~(w[2] \in DOMAIN n.st /\ n.st[w[2]] = w[3])
            /\ \E r \in names : r[1] # <<>> /\ r[1][1] = n.path

(***************************************************************************)
(* Run through the log of a pass.                                          *)
(*   <<"R", uid>>                         render of a component            *)
(*   <<"M"|"U"|"B", uid, name, el, anc, props, emits>>                     *)
(*                                        mounted/updated/before_unmount;  *)
(*                                        el: element, anc: ancestors      *)
(*   <<"C", n>>                           callback of render (n: 1 when it *)
(*                                        belongs to the latest call)      *)
(*   <<"F", label, uid, args>>            an event handler is called       *)
(*   <<"S">>                              the event loop gets control back *)
(*   <<"W", ...>>                         a write (see Write)              *)
(***************************************************************************)
Log0(s) ==
  [dom |-> s.dom, live |-> s.live, bad |-> {}, hooks |-> FALSE, sliced |-> FALSE,
   m |-> <<>>, u |-> <<>>, b |-> <<>>, rms |-> {}, new |-> {}, r |-> 0, c |-> 0,
   tree |-> 0, late |-> FALSE, f |-> <<>>, seenU |-> s.seenU, lis |-> {}]

If(p, c) == IF p THEN {c} ELSE {}

LogCall(a, op) ==
  LET w == Wrong(a.dom, op)
      t == InTree(a.dom, op)
  IN [a EXCEPT
        !.dom = Step(@, op),
        !.bad = @ \cup w
                  \cup If(t /\ a.hooks, "hook.dom-changed-after-hook")
                  \* All changes of the tree are made without giving back control
                  \cup If(t /\ a.sliced, "slice.partial-commit"),
        !.tree = IF t THEN @ + 1 ELSE @,
        !.late = @ \/ (t /\ a.c > 0),
        !.rms = IF op[1] = "rm" THEN @ \cup {op[2]} ELSE @,
        !.lis = IF op[1] \in {"al", "rl"} THEN @ \cup {<<op[2], op[3]>>} ELSE @,
        !.new = IF op[1] \in {"ce", "ct"} THEN @ \cup {op[2]} ELSE @]

LogHook(a, op) ==
  LET uid == op[2]
      here == op[4] = 0 \/ Connected(a.dom, op[4])
      anc == Range2(op[5])
  IN
  CASE op[1] = "M" ->
         [a EXCEPT !.m = Append(@, uid), !.hooks = TRUE, !.live = @ \cup {uid},
                   !.seenU = @ \cup {uid},
                   !.bad = @ \cup If(uid \in a.seenU, "hook.mounted-twice")
                             \cup If(~here, "hook.mounted-before-insert")
                             \cup If(\E p \in anc : Has(a.m, p) \/ Has(a.u, p),
                                     "hook.parent-before-child")]
    [] op[1] = "U" ->
         [a EXCEPT !.u = Append(@, uid), !.hooks = TRUE,
                   !.bad = @ \cup If(Has(a.u, uid), "hook.updated-twice")
                             \cup If(Has(a.m, uid), "hook.updated-with-mounted")
                             \cup If(uid \notin a.live, "hook.updated-not-mounted")
                             \cup If(\E p \in anc : Has(a.u, p) \/ Has(a.m, p),
                                     "hook.parent-before-child")]
    [] op[1] = "B" ->
         [a EXCEPT !.b = Append(@, uid), !.live = @ \ {uid},
                   !.bad = @ \cup If(uid \notin a.live, "hook.unmount-not-mounted")
                             \cup If(~here, "hook.unmount-after-remove")
                             \cup If(a.hooks, "hook.unmount-after-other-hooks")]

LogStep(a, op) ==
  CASE op[1] \in CallOps -> LogCall(a, op)
    [] op[1] \in {"M", "U", "B"} -> LogHook(a, op)
    [] op[1] = "R" -> [a EXCEPT !.r = @ + 1]
    [] op[1] = "C" -> [a EXCEPT !.c = @ + 1,
                                !.bad = @ \cup If(op[2] = 0, "callback.of-earlier-call")]
    [] op[1] = "F" -> [a EXCEPT !.f = Append(@, <<op[2], op[3], op[4]>>)]
    [] op[1] = "S" -> [a EXCEPT !.sliced = a.tree > 0 \/ a.hooks]
    [] OTHER -> a

RunLog(s, log) == FoldLeft(LogStep, Log0(s), log)

(***************************************************************************)
(* In a weak segment several passes are run, of which some are based on a  *)
(* state that changed while they were running. So the log is only checked  *)
(* for the calls themselves.                                               *)
(* The end of a pass is not recorded, but the first component that is      *)
(* rendered or element that is created again is part of the next one. A    *)
(* callback ends a pass as well.                                           *)
(***************************************************************************)
NextPass(a) ==
  [a EXCEPT !.hooks = FALSE, !.sliced = FALSE, !.tree = 0, !.m = <<>>, !.u = <<>>]

WeakStep(a, op) ==
  CASE op[1] \in {"R", "C", "ce", "ct"} -> LogStep(NextPass(a), op)
    [] OTHER -> LogStep(a, op)

RunWeakLog(s, log) == FoldLeft(WeakStep, Log0(s), log)

\* The nodes that are still there after a weak segment: a node that was removed by
\* one of the passes is not kept, also when the last pass describes it again (but the
\* descriptions of its siblings do not take its place).
RECURSIVE Survivors(_, _)
Survivors(ns, lg) ==
  [i \in 1..Len(ns) |->
     LET n == ns[i]
         left == IF n.k \in {"el", "tx"} THEN n.rid = 0 \/ Connected(lg.dom, n.rid)
                 ELSE n.uid = 0 \/ n.uid \in lg.live
     IN IF left THEN [n EXCEPT !.c = Survivors(@, lg)]
        ELSE [n EXCEPT !.k = "gone", !.c = <<>>]]

(***************************************************************************)
(* Compare the elements in the tree with the DOM.                          *)
(***************************************************************************)
RECURSIVE Struct(_, _, _)
Struct(es, ids, dom) ==
  IF Len(es) # Len(ids) THEN {"struct.children"}
  ELSE UNION { LET e == es[i]  d == dom[ids[i]] IN
               IF e.t # d.t THEN {"struct.type"}
               ELSE IF e.k = "tx" THEN If(d.tx # e.a["content"], "struct.text")
               ELSE Struct(Elements(e.c), d.c, dom)
             : i \in 1..Len(es) }

\* Pairs of the elements of the tree and the ids in the DOM (same structure)
RECURSIVE ZipEls(_, _, _)
ZipEls(es, ids, dom) ==
  FlattenSeq([i \in 1..Len(es) |->
    << <<es[i], ids[i]>> >> \o ZipEls(Elements(es[i].c), dom[ids[i]].c, dom)])

\* Fill in the ids of elements and instances
RECURSIVE Bind(_, _, _)
Bind(ns, rids, uids) ==
  [i \in 1..Len(ns) |->
     [ns[i] EXCEPT !.rid = FnGet(rids, ns[i].path, @),
                   !.uid = FnGet(uids, ns[i].path, @),
                   !.c = Bind(@, rids, uids)]]

\* Forget what the patch recorded
RECURSIVE Clean(_, _, _)
Clean(ns, lag, weak) ==
  [i \in 1..Len(ns) |->
     [ns[i] EXCEPT !.old = <<>>, !.isnew = FALSE, !.gu = "", !.su = "", !.mv = FALSE,
                   !.lag = (@ /\ lag) \/ weak, !.c = Clean(@, lag, weak)]]

\* Function from a set of pairs, in which every first item occurs once
SetFn(ps) == [x \in { p[1] : p \in ps } |-> (CHOOSE p \in ps : p[1] = x)[2]]

AttrClauses(e, d) ==
  IF e.k = "tx" THEN {}
  ELSE If(DOMAIN d.a \ DOMAIN e.a # {}, "attr.extra")
       \cup If(DOMAIN e.a \ DOMAIN d.a # {}, "attr.missing")
       \cup If(\E x \in DOMAIN e.a \cap DOMAIN d.a : e.a[x] # d.a[x], "attr.value")

(***************************************************************************)
(* Handlers. `probe` is a sequence of <<element, event, labels>> that are  *)
(* the result of firing all events of all elements; a label comes with the *)
(* uid of the instance that the handler is bound to (or 0).                *)
(***************************************************************************)
EventClauses(zip, uids, probe) ==
  LET want(e) == { <<ev, e.ev[ev].l,
                     IF e.ev[ev].o = <<>> THEN 0 ELSE FnGet(uids, e.ev[ev].o[1], 0)>>
                   : ev \in DOMAIN e.ev }
      wanted == UNION { { <<zip[i][2]>> \o x : x \in want(zip[i][1]) } : i \in 1..Len(zip) }
      got == UNION { { <<probe[i][1], probe[i][2]>> \o probe[i][3][j]
                       : j \in 1..Len(probe[i][3]) } : i \in 1..Len(probe) }
  IN If(wanted \ got # {}, "event.missing")
     \cup If(got \ wanted # {}, "event.stale-or-extra")
     \cup If(\E i \in 1..Len(probe) : Len(probe[i][3]) > 1, "event.called-twice")

(***************************************************************************)
(* Instances: <<uid, element, parent, props, state>> (props: pairs)        *)
(***************************************************************************)
InstClauses(insts, obs) ==
  LET at(u) == { n \in Range2(insts) : n.uid = u } IN
  UNION { LET o == obs[i] IN
          IF at(o[1]) = {} THEN {}
          ELSE LET n == CHOOSE n \in at(o[1]) : TRUE
                   anc == { p \in Range2(insts) :
                              /\ Len(p.path) < Len(n.path)
                              /\ SubSeq(n.path, 1, Len(p.path)) = p.path }
                   par == IF anc = {} THEN 0
                          ELSE (CHOOSE p \in anc : \A q \in anc :
                                  Len(q.path) <= Len(p.path)).uid
               IN If(FirstEl(n) # o[2], "element.wrong")
                  \cup If(par # 0 /\ par # o[3], "parent.wrong")
                  \cup If(anc = {} /\ o[3] # 0, "parent.wrong")
                  \cup If(PairsToFn(o[4]) # n.a, "props.wrong")
                  \cup If(PairsToFn(o[5]) # n.st, "state.changed")
        : i \in 1..Len(obs) }

(***************************************************************************)
(* What components see in their hooks: their element, their parents, their *)
(* props, and the handlers that are called when they emit. For mounted and *)
(* updated, these are of the new tree; for before_unmount, of the old one. *)
(* The props of the root can be the state itself.                          *)
(***************************************************************************)
SeenClauses(insts, op) ==
  LET at == { n \in Range2(insts) : n.uid = op[2] /\ Len(n.path) > 1 } IN
  IF at = {} THEN {}
  ELSE LET n == CHOOSE n \in at : TRUE
           anc == SelectSeq(insts, LAMBDA p : Len(p.path) < Len(n.path)
                              /\ SubSeq(n.path, 1, Len(p.path)) = p.path)
           props == PairsToFn(op[6])
           sure == { e \in DOMAIN n.ev : n.ev[e].k # "dyn" }
           owner(o) == IF o = <<>> THEN 0
                       ELSE LET w == { p \in Range2(insts) : p.path = o[1] } IN
                            IF w = {} THEN 0 ELSE (CHOOSE p \in w : TRUE).uid
           want == { <<e, << <<n.ev[e].l, owner(n.ev[e].o)>> >> >> : e \in sure }
           got == { x \in Range2(op[7]) : x[1] \notin DOMAIN n.ev \ sure }
       IN If(FirstEl(n) # op[4], "element.wrong-in-hook")
          \cup If({ p.uid : p \in Range2(anc) } # Range2(op[5]), "parent.wrong-in-hook")
          \cup If(IF op[1] = "B"
                  THEN \E k \in DOMAIN props : k \notin DOMAIN n.a \/ n.a[k] # props[k]
                  ELSE props # n.a, "props.wrong-in-hook")
          \cup If(want # got, "emit.wrong-in-hook")

HookClauses(old, new, log) ==
  UNION { IF log[i][1] \in {"M", "U"} THEN SeenClauses(new, log[i])
          ELSE IF log[i][1] = "B" THEN SeenClauses(old, log[i])
          ELSE {} : i \in 1..Len(log) }

(***************************************************************************)
(* Handlers that are called by an action: <<"dispatch"|"emit", id, event,  *)
(* arguments>>                                                             *)
(***************************************************************************)
FiredClauses(s, act, fired) ==
  IF act[1] \notin {"dispatch", "emit"} THEN {}
  ELSE LET at == { n \in Range2(Nodes(s.tree)) :
                     IF act[1] = "emit" THEN n.uid = act[2] ELSE n.rid = act[2] }
           n == CHOOSE n \in at : TRUE
           want == IF at = {} \/ act[3] \notin DOMAIN n.ev THEN <<>>
                   ELSE <<n.ev[act[3]].l>>
           kind == IF act[1] = "emit" THEN "emit." ELSE "event."
       IN (IF Len(fired) < Len(want) THEN {kind \o "not-called"} ELSE {})
          \cup (IF Len(fired) > Len(want) THEN {kind \o "extra-call"} ELSE {})
          \cup (IF Len(fired) >= 1 /\ Len(want) = 1 /\ fired[1][1] # want[1]
                THEN {kind \o "wrong-handler"} ELSE {})
          \cup (IF Len(fired) >= 1 /\ fired[1][3] # act[4]
                THEN {kind \o "wrong-arguments"} ELSE {})

(***************************************************************************)
(* A segment                                                               *)
(*   w     writes before the pass        act   what the driver did         *)
(*   rd    0 or 1 descriptions that are passed to render                   *)
(*   log   what was observed             weak  see WeakStep                *)
(*   q     whether the segment ends with nothing left to do, in which case *)
(*         probe, inst and root are given                                  *)
(*   cb    whether render was given a callback                             *)
(*   exc   exceptions                                                      *)
(***************************************************************************)
Pass(s0, seg) ==
  LET s1 == Writes(IF seg.rd = <<>> THEN s0 ELSE [s0 EXCEPT !.rt = seg.rd], seg.w)
      lg == IF seg.weak THEN RunWeakLog(s1, seg.log) ELSE RunLog(s1, seg.log)
      g == NewTree(IF seg.weak THEN [s1 EXCEPT !.tree = Survivors(@, lg)] ELSE s1)
      new == g.c
      dom == lg.dom
      els == Elements(new)
      top == dom[Container].c
      struct == Struct(els, top, dom)
      fired == IF seg.weak THEN {} ELSE FiredClauses(s0, seg.act, lg.f)
      common == { "exc." \o seg.exc[i] : i \in 1..Len(seg.exc) }
                \cup lg.bad \cup fired
      failed == [s1 EXCEPT !.dead = TRUE, !.bad = common \cup struct]
  IN
  IF struct # {} \/ seg.exc # <<>> THEN failed
  ELSE
  LET zip == ZipEls(els, top, dom)
      rids == [p \in { zip[i][1].path : i \in 1..Len(zip) } |->
                 (CHOOSE i \in 1..Len(zip) : zip[i][1].path = p)]
      ridfn == [p \in DOMAIN rids |-> zip[rids[p]][2]]
      \* Owners of the elements
      ei == { i \in 1..Len(zip) : zip[i][1].ow # <<>> }
      own1 == { <<zip[i][1].ow[1], IF dom[zip[i][2]].ow = <<>> THEN 0
                                   ELSE dom[zip[i][2]].ow[1]>> : i \in ei }
      ownfn == SetFn(own1)
      own2 == UNION { LET w == zip[i][1].ow  o == dom[zip[i][2]].ow
                          n == IF Len(w) < Len(o) THEN Len(w) ELSE Len(o)
                      IN { <<w[j], o[j]>> : j \in 2..n } : i \in ei }
      more == { p \in own2 : p[1] \notin DOMAIN ownfn }
      chainbad == \/ \E i \in ei : Len(zip[i][1].ow) # Len(dom[zip[i][2]].ow)
                  \/ \E p \in own2 : p[1] \in DOMAIN ownfn /\ ownfn[p[1]] # p[2]
      uids1 == SetFn(more) @@ ownfn
      insts0 == Insts(new)
      \* Instances without any element: match them by name, in the order of mounted
      free == SelectSeq(InstsUp(new), LAMBDA n : n.uid = 0 /\ n.path \notin DOMAIN uids1)
      names == [i \in 1..Len(seg.log) |->
                  IF seg.log[i][1] = "M" THEN <<seg.log[i][2], seg.log[i][3]>> ELSE <<0, "">>]
      known == { uids1[p] : p \in DOMAIN uids1 }
      cand(nm) == SelectSeq(names, LAMBDA x : x[1] # 0 /\ x[2] = nm /\ x[1] \notin known
                                              /\ x[1] \in lg.live)
      freeOf(nm) == SelectSeq(free, LAMBDA n : n.t = nm)
      uids2 == SetFn(UNION { LET c == cand(nm)  f == freeOf(nm) IN
                             { <<f[i].path, c[i][1]>>
                               : i \in 1..(IF Len(c) < Len(f) THEN Len(c) ELSE Len(f)) }
                             : nm \in { n.t : n \in Range2(free) } })
      uidfn == uids2 @@ uids1
      bound == Bind(new, ridfn, uidfn)
      insts == Insts(bound)
      uidset == { n.uid : n \in Range2(insts) }
      ident == 
        If(\E i \in 1..Len(zip) : zip[i][1].rid # 0 /\ zip[i][1].rid # zip[i][2],
           "id.element-not-kept")
        \cup If(\E i \in 1..Len(zip) : zip[i][1].rid = 0 /\ zip[i][2] \in s1.seen,
                "id.element-reused")
        \cup If(\E p, q \in own1 : (p[1] = q[1]) # (p[2] = q[2]), "id.instance-mixed-up")
        \cup If(\E n \in Range2(insts0) : n.uid # 0 /\ FnGet(uidfn, n.path, n.uid) # n.uid,
                "id.instance-not-kept")
        \cup If(\E n \in Range2(insts0) : n.isnew /\ FnGet(uidfn, n.path, 0) \in s1.seenU
                                          /\ FnGet(uidfn, n.path, 0) # 0,
                "id.instance-reused")
      \* In a weak segment, nodes might have been removed and added in between
      identW ==
        If(\E i \in 1..Len(zip) : zip[i][2] # zip[i][1].rid /\ zip[i][2] \in s1.seen,
           "id.element-reused")
      attrs == UNION { AttrClauses(zip[i][1], dom[zip[i][2]]) : i \in 1..Len(zip) }
      hooks ==
        If(uidset \ lg.live # {}, "hook.mounted-missing")
        \cup If(lg.live \ uidset # {}, "hook.unmount-missing")
      kept == SelectSeq(insts, LAMBDA n : ~n.isnew)
      sh == Shaken(bound, g.mv)
      \* The group of the children of the container belongs to no component
      upd ==
        If(\E n \in Range2(kept) : MustUpdate(n) /\ ~Has(lg.u, n.uid), "hook.updated-missing")
        \cup If(\E n \in Range2(kept) : Has(lg.u, n.uid) /\ ~MayUpdate(n)
                                        /\ ~ShakenRegion(n, sh), "hook.updated-needless")
      allnew == { n.rid : n \in { x \in Range2(Nodes(bound)) :
                                    x.isnew /\ x.k \in {"el", "tx"} } }
      final == { zip[i][2] : i \in 1..Len(zip) }
      nodes == Range2(Nodes(bound))
      still == g.gu = "" /\ \A n \in nodes : n.gu = "" /\ n.su = "" /\ ~n.isnew
      calls ==
        If((lg.rms \cap final) \ Movable(bound, g.mv) # {}, "calls.needless-move")
        \cup If(lg.new # allnew, "calls.needless-create")
        \cup If(still /\ lg.tree > 0, "calls.without-change")
        \* The handlers of kept elements stay when there is no difference
        \cup If(\E n \in nodes : n.k = "el" /\ ~n.isnew /\ n.su = ""
                                 /\ \E l \in lg.lis : l[1] = n.rid, "event.churn")
      cb == If(seg.q /\ seg.cb /\ (lg.tree > 0 \/ seg.rd # <<>>) /\ lg.c = 0, "callback.missing")
            \cup If(lg.late, "callback.before-commit")
            \cup If(lg.c > 0 /\ lg.r = 0 /\ seg.rd = <<>> /\ lg.tree = 0
                    /\ ~seg.plain, "callback.without-pass")
      idle == seg.rd = <<>> /\ \A i \in 1..Len(seg.w) : ~Relevant(s0, seg.w[i])
      quiet == If(idle /\ (lg.tree > 0 \/ lg.r > 0 \/ lg.c > 0 \/ lg.new # {}
                                \/ lg.m # <<>> \/ lg.u # <<>> \/ lg.b # <<>>),
                  "pass.irrelevant-change")
      probes == IF ~seg.q THEN {}
                ELSE EventClauses(zip, uidfn, seg.probe)
                     \cup InstClauses(insts, seg.inst)
                     \cup If(PairsToFn(seg.root) # s1.root, "state.root-changed")
                     \cup (IF seg.sn THEN Snapshot(dom, seg.snap, s0.dflt, s0.loose)
                           ELSE {})
      all == common \cup attrs \cup hooks \cup probes \cup If(chainbad, "parent.chain")
             \cup (IF seg.weak THEN identW
                   ELSE ident \cup upd \cup calls \cup cb \cup quiet
                        \cup HookClauses(Insts(s0.tree), insts, seg.log))
  IN
  \* It can't be told which nodes were kept by passes in between
  IF seg.weak /\ ident # {} THEN [failed EXCEPT !.bad = common \cup identW]
  ELSE
     [s1 EXCEPT
        !.tree = Clean(bound, lg.r = 0, seg.weak), !.dom = dom,
        !.live = lg.live, !.seenU = lg.seenU,
        !.seen = @ \cup final, !.bad = all,
        \* An element or instance that is not the one that is expected makes the
        \* rest of the history meaningless
        !.dead = ident # {} \/ hooks # {},
        !.n = [els |-> Len(zip), insts |-> Len(insts), evs |-> Len(seg.probe)]]
=============================================================================
