----------------------------- MODULE CallTrace -----------------------------
(***************************************************************************)
(* Judges what a renderer shows after series of calls: a segment has the   *)
(* calls, the snapshot that was taken after them, and the handlers that    *)
(* were called for events that were fired.                                 *)
(***************************************************************************)
EXTENDS Dom, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES ti, si, dom

vars == <<ti, si, dom>>

T == Traces[ti]


Fn(ps) == [x \in { ps[i][1] : i \in 1..Len(ps) } |->
             ps[CHOOSE i \in 1..Len(ps) : ps[i][1] = x][2]]

Dflt == LET d == Fn(T.dflt) IN [t \in DOMAIN d |-> Fn(d[t])]

RECURSIVE Apply(_, _, _)
Apply(d, calls, bad) ==
  IF calls = <<>> THEN [dom |-> d, bad |-> bad]
  ELSE Apply(Step(d, Head(calls)), Tail(calls), bad \cup Wrong(d, Head(calls)))

\* The children of the container in the order of the attribute T.by
Ordered(d) ==
  IF T.by = "" THEN d
  ELSE LET rank == Fn(T.ranks)
           place(e) == rank[d[e].a[T.by]]
       IN [d EXCEPT ![Container].c =
             SortSeq(@, LAMBDA x, y : place(x) < place(y))]

\* All handlers of the event are called once
Fired(d, probe) ==
  LET want == { l[2] : l \in { m \in d[probe[1]].l : m[1] = probe[2] } }
      got == probe[3]
  IN (IF \E h \in want : h \notin Range(got) THEN {"event.not-called"} ELSE {})
     \cup (IF \E h \in Range(got) : h \notin want THEN {"event.extra-call"} ELSE {})
     \cup (IF Cardinality(Range(got)) # Len(got) THEN {"event.called-twice"} ELSE {})

Bad(r, seg) ==
  IF seg.exc # <<>> THEN { "exc." \o seg.exc[i] : i \in 1..Len(seg.exc) }
  ELSE r.bad
       \cup Snapshot(Ordered(r.dom), seg.snap, Dflt, Range(T.loose))
       \cup UNION { Fired(r.dom, seg.fired[i]) : i \in 1..Len(seg.fired) }

Init == ti \in 1..Len(Traces) /\ si = 0 /\ dom = InitDom

Next == /\ si < Len(T.segs)
        /\ si' = si + 1
        /\ ti' = ti
        /\ LET r == Apply(dom, T.segs[si'].calls, {})
               bad == Bad(r, T.segs[si'])
           IN /\ dom' = r.dom
              /\ bad # {} => PrintT("BAD|" \o ToString(ti) \o "|" \o ToString(si') \o "|"
                                    \o ToString(bad))
        /\ si' = Len(T.segs) =>
             PrintT("DONE|" \o ToString(ti) \o "|" \o ToString(si') \o "|FALSE|"
                    \o ToString(Cardinality(DOMAIN dom')))

Spec == Init /\ [][Next]_vars
=============================================================================
