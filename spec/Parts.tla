------------------------------- MODULE Parts -------------------------------
(***************************************************************************)
(* Ways in which a component is used, as templates in the language of      *)
(* Tmpl. In every world there is a component that shows one of the         *)
(* configurations, depending on its state, and any one can follow any      *)
(* other one. Since all of them are of the same component (at the same     *)
(* place), the instance stays, and what is passed to it changes.           *)
(*                                                                         *)
(*   slots-*   what is passed for two slots, for components that use them  *)
(*             in different ways                                           *)
(*   props-*   a prop, a handler and a slot that are passed or not         *)
(*   roots-*   what a component has as its root                            *)
(*   chain     what is in between a provider and who injects               *)
(*   reads     places in which a name is used, with writes that matter and *)
(*             writes that do not                                          *)
(*   templ     templates: elements and directives in all combinations, for *)
(*             all values of what the directives depend on                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, TLC, Json, IOUtils

C(v) == <<"c", v>>
V(name) == <<"v", name>>
Is(name, v) == <<"=", V(name), C(v)>>

El(t, a, ev, c) ==
  [k |-> "el", t |-> t, key |-> <<>>, a |-> a, b |-> <<>>, ev |-> ev, c |-> c]
Tag(t, c) == El(t, <<>>, <<>>, c)
P == Tag("p", <<>>)
Shown(t, name) == El(t, <<<<"u", V(name)>>>>, <<>>, <<>>)
Tx(e) == [k |-> "tx", e |-> e]
Vt(c) == [k |-> "vt", t |-> "template", key |-> <<>>, c |-> c]
Co(t, a, ev, s) ==
  [k |-> "co", t |-> t, key |-> <<>>, a |-> a, b |-> <<>>, ev |-> ev, s |-> s]
Use(t) == Co(t, <<>>, <<>>, <<>>)
Sl(n, c) == [k |-> "sl", n |-> n, w |-> "F", a |-> <<>>, c |-> c]
SlP(n, a, c) == [Sl(n, c) EXCEPT !.a = a]
\* A slot in a directive: the compiler has a virtual element around it
SlW(n, c, mode) == [Sl(n, c) EXCEPT !.w = IF mode = "cgx" THEN "T" ELSE "F"]
If(cond, node) == [k |-> "if", br |-> <<<<cond, node>>>>, el |-> <<>>]
IfElse(cond, node, other) == [k |-> "if", br |-> <<<<cond, node>>>>, el |-> <<other>>]
For(name, list, node) == [k |-> "fo", v |-> name, i |-> <<>>, e |-> V(list), c |-> <<node>>]
Keyed(node, e) == [node EXCEPT !.key = e]
Slot(name, c) == <<name, c, "F">>

Def(n, props, st, tm) ==
  [n |-> n, fn |-> "F", props |-> props, st |-> st, self |-> <<>>, prov |-> <<>>,
   dprov |-> <<>>, hw |-> <<>>, tm |-> tm, slots |-> <<>>]
Fun(n, props, tm) == [Def(n, props, <<>>, tm) EXCEPT !.fn = "T"]
Provides(def, prov) == [def EXCEPT !.prov = prov]

Product(f(_, _), s, t) ==
  FlattenSeq([i \in 1..Len(s) |-> [j \in 1..Len(t) |-> f(s[i], t[j])]])

S1 == <<<<"s1", "a">>>>
Leaf == Def("Leaf", <<"x">>, S1, El("p", <<<<"u", V("x")>>, <<"w", V("s1")>>>>, <<>>, <<>>))

World(name, modes, defs, nodes) ==
  [name |-> name, modes |-> modes, defs |-> defs, nodes |-> nodes, writes |-> <<>>,
   together |-> FALSE]

-----------------------------------------------------------------------------
\* What can be passed for a slot: nothing, or one of these
Contents ==
  << <<>>,                                              \* nothing
     <<If(Is("x", "never"), P)>>,                       \* nothing at the moment
     <<Shown("p", "x")>>,
     <<Tx(V("x"))>>,
     <<Co("Leaf", <<<<"x", V("x")>>>>, <<>>, <<>>)>>,
     <<For("it1", "items", Shown("ul", "it1"))>>,
     <<IfElse(Is("x", "a"), P, Use("Leaf")), Tag("ul", <<P>>)>> >>

Filled(child) ==
  LET Fill(one, two) ==
        Co(child, <<>>, <<>>,
           (IF one = <<>> THEN <<>> ELSE <<Slot("default", one)>>) \o
           (IF two = <<>> THEN <<>> ELSE <<Slot("head", two)>>))
  IN Product(Fill, Contents, Contents)

Fallback == <<Tag("ul", <<Tx(C("fallback"))>>)>>
Both(mode) == <<Sl("head", Fallback), P, Sl("default", <<>>)>>

SlotsWorlds ==
  LET defs(child) == <<child, Leaf>>
      W(name, modes, child) == World("slots-" \o name, modes, child \o <<Leaf>>, Filled("Child"))
      all == <<"h", "cgx", "mix">>
      Child(tm) == Def("Child", <<"x">>, S1, tm)
      Inner == Def("Inner", <<>>, <<>>, Tag("ul", <<Sl("default", <<P>>), Tag("div", <<Sl("head", <<>>)>>)>>))
  IN
  << W("plain", all, <<Child(Tag("div", Both(0)))>>),
     W("nested", all, <<Child(Tag("div", <<Tag("ul", <<Sl("default", Fallback)>>), Sl("head", <<>>)>>))>>),
     W("within", all, <<Child(Tag("div", <<Sl("head", <<P, Sl("default", Fallback)>>)>>))>>),
     W("twice", all, <<Child(Tag("div", <<Sl("default", Fallback), Sl("head", <<>>), Sl("default", <<>>)>>))>>),
     W("choice-h", <<"h">>,
       <<Child(Tag("div", <<IfElse(Is("s1", "a"), SlW("head", Fallback, "h"), SlW("default", <<>>, "h"))>>))>>),
     W("choice-cgx", <<"cgx">>,
       <<Child(Tag("div", <<IfElse(Is("s1", "a"), SlW("head", Fallback, "cgx"), SlW("default", <<>>, "cgx"))>>))>>),
     W("on", all,
       <<Child(Tag("div", <<Co("Inner", <<>>, <<>>,
            <<Slot("default", <<Sl("head", Fallback)>>), Slot("head", <<P, Sl("default", <<>>)>>)>>)>>)),
         Inner>>),
     W("root", all,
       <<Child(Co("Inner", <<>>, <<>>, <<Slot("default", <<Sl("default", Fallback)>>)>>)), Inner>>),
     W("props", <<"h">>,
       <<Child(Tag("div", <<SlP("head", <<<<"x", V("s1")>>>>, Fallback),
                            SlP("default", <<<<"x", C("slot")>>>>, <<>>)>>))>>),
     W("virtual", <<"h">>, <<Child(Vt(<<Sl("head", <<>>), Sl("default", <<P>>)>>))>>),
     W("function", <<"h">>, <<Fun("Child", <<>>, Vt(Both(0)))>>),
     W("ignored", all, <<Child(Tag("div", <<P, Sl("head", <<>>)>>))>>) >>

-----------------------------------------------------------------------------
Props == << <<>>, <<<<"x", C("a")>>>>, <<<<"x", V("x")>>>>, <<<<"x", C("")>>>> >>
Handlers ==
  << <<>>,
     <<<<"done", "clo", <<"+", C("h1"), V("x")>>>>>>,
     <<<<"done", "def", C("h2")>>, <<"change", "par", C("h3")>>>>,
     <<<<"done", "bound", C("meth")>>>>,
     <<<<"change", "nest", V("x")>>>> >>
Insides == << <<>>, <<Slot("default", <<Shown("p", "x")>>)>> >>

PropsWorlds ==
  LET Pass(child) ==
        LET One(p, h) == <<p, h>>
            Two(ph, s) == Co(child, ph[1], ph[2], s)
        IN Product(Two, Product(One, Props, Handlers), Insides)
      W(name, modes, defs) == World("props-" \o name, modes, defs \o <<Leaf>>, Pass("Child"))
      all == <<"h", "cgx", "mix">>
      X == <<<<"x", V("x")>>>>
      Child(tm) == Def("Child", <<"x">>, S1, tm)
      Key(k, p) == Keyed(Co("Child", p, <<>>, <<>>), k)
  IN
  << W("plain", all, <<Child(El("div", <<<<"u", V("x")>>>>, <<>>, <<Sl("default", <<>>)>>))>>),
     W("unused", all, <<Child(Tag("div", <<Sl("default", <<P>>)>>))>>),
     W("fn", <<"h">>, <<Fun("Child", <<"x">>, Tag("div", <<Sl("default", <<>>)>>))>>),
     W("hoc", all, <<Child(Co("Leaf", X, <<<<"done", "clo", <<"+", C("in"), V("x")>>>>>>, <<>>))>>),
     W("hocfn", <<"h">>, <<Child(Co("Fn", X, <<>>, <<>>)),
                          Fun("Fn", <<"x">>, Use("Leaf"))>>),
     W("choice", all, <<Child(Tag("div", <<IfElse(Is("x", "a"), Use("Leaf"), Shown("p", "x")),
                                          Sl("default", <<>>)>>))>>),
     W("loop", all, <<Child(Tag("div", <<For("it1", "items", Co("Leaf", X, <<>>, <<>>)),
                                         Sl("default", <<>>)>>))>>),
     W("listen", all, <<Child(El("div", <<>>, <<<<"click", "clo", V("x")>>, <<"tap", "bound", C("meth")>>>>,
                                 <<Sl("default", <<>>)>>))>>),
     W("hocall", all, <<Child([Use("Leaf") EXCEPT !.b = <<0, <<"R">>>>])>>),
     W("hocmore", all, <<Child([Co("Leaf", <<<<"x", C("b")>>>>, <<<<"done", "def", C("more")>>>>, <<>>)
                                EXCEPT !.b = <<0, <<"R">>>>])>>),
     W("hocless", all, <<Child([Co("Leaf", <<<<"x", C("b")>>>>, <<<<"done", "def", C("more")>>>>, <<>>)
                                EXCEPT !.b = <<1, <<"R">>>>])>>),
     \* Keys are passed on too
     World("props-keyed", all, <<Child([Use("Leaf") EXCEPT !.b = <<0, <<"R">>>>]), Leaf>>,
           Product(Key, <<<<>>, C("k1"), V("x")>>, Props)),
     W("all", all, <<Child([El("div", <<>>, <<>>, <<Sl("default", <<>>)>>) EXCEPT !.b = <<0, <<"R">>>>])>>) >>

-----------------------------------------------------------------------------
\* In between: components, elements, slots. "~" is where the next one goes.
Links == <<"none", "el", "vt", "plain", "theme", "mode", "falsy", "again", "function", "in-theme", "in-plain">>

RECURSIVE Link(_)
Link(links) ==
  IF links = <<>> THEN Use("Inject") ELSE
  LET rest == Link(Tail(links))
      In(name) == Co(name, <<>>, <<>>, <<Slot("default", <<rest>>)>>)
  IN
  CASE Head(links) = "none" -> rest
    [] Head(links) = "el" -> Tag("div", <<rest>>)
    [] Head(links) = "vt" -> Vt(<<rest>>)
    [] Head(links) = "plain" -> In("Plain")
    [] Head(links) = "theme" -> In("Theme")
    [] Head(links) = "mode" -> In("Mode")
    [] Head(links) = "falsy" -> In("Falsy")
    [] Head(links) = "again" -> In("Again")
    [] Head(links) = "function" -> In("Function")
    [] Head(links) = "in-theme" -> In("InTheme")
    [] Head(links) = "in-plain" -> In("InPlain")

Chains(n) ==
  LET Before(a, rest) == <<a>> \o rest IN
  IF n = 1 THEN [i \in 1..Len(Links) |-> <<Links[i]>>]
  ELSE IF n = 2 THEN Product(Before, Links, [i \in 1..Len(Links) |-> <<Links[i]>>])
  ELSE Product(Before, Links, Product(Before, Links, [i \in 1..Len(Links) |-> <<Links[i]>>]))

ChainWorlds ==
  LET Slotted(name, inner) == Def(name, <<>>, S1, inner)
      hole == Sl("default", <<>>)
      J(key) == <<"j", key, "none">>
      defs(fn) ==
        << Def("Inject", <<>>, S1, El("p", <<<<"u", J("theme")>>, <<"w", J("mode")>>>>, <<>>, <<>>)),
           Slotted("Plain", Tag("div", <<hole>>)),
           Provides(Slotted("Theme", El("div", <<<<"u", J("theme")>>>>, <<>>, <<hole>>)), <<<<"theme", "t1">>>>),
           Provides(Slotted("Mode", Tag("div", <<P, hole>>)), <<<<"mode", "m1">>>>),
           Provides(Slotted("Falsy", Tag("div", <<hole>>)), <<<<"theme", "">>, <<"mode", "@null">>>>),
           [Slotted("Again", Tag("div", <<hole>>)) EXCEPT !.dprov = <<<<"theme", V("s1")>>>>],
           fn,
           \* The content is in a slot of another component, within this one
           Slotted("InTheme", Tag("ul", <<Co("Theme", <<>>, <<>>, <<Slot("default", <<hole>>)>>)>>)),
           Slotted("InPlain", Co("Plain", <<>>, <<>>, <<Slot("default", <<P, hole>>)>>)) >>
  IN << World("chain", <<"h", "mix">>, defs(Fun("Function", <<>>, Tag("ul", <<hole>>))),
              LET all == Chains(3) IN [i \in 1..Len(all) |-> Link(all[i])]),
        World("chain-cgx", <<"cgx">>, defs(Slotted("Function", Tag("ul", <<hole>>))),
              LET all == Chains(3) IN [i \in 1..Len(all) |-> Link(all[i])]) >>

-----------------------------------------------------------------------------
Sites ==
  LET X == <<<<"x", V("x")>>>> IN
  << P,
     Shown("p", "x"),
     Tag("div", <<Tx(V("x"))>>),
     Vt(<<If(Is("x", "a"), P)>>),
     Vt(<<IfElse(Is("y", "a"), Shown("p", "x"), Tag("ul", <<>>))>>),
     Co("Leaf", X, <<>>, <<>>),
     Co("Ignore", X, <<>>, <<>>),
     Co("Hoc", X, <<>>, <<>>),
     Co("Slotted", <<>>, <<>>, <<Slot("default", <<Shown("p", "x")>>)>>),
     Co("Slotted", X, <<>>, <<Slot("default", <<Tx(V("x"))>>)>>),
     Co("Slotted", <<>>, <<>>, <<Slot("default", <<Co("Leaf", X, <<>>, <<>>)>>)>>),
     Co("Slotted", <<>>, <<>>, <<Slot("default", <<IfElse(Is("y", "a"), Shown("p", "x"), P)>>)>>),
     Co("Ignore", <<>>, <<>>, <<Slot("default", <<Shown("p", "x")>>)>>),
     Vt(<<For("it1", "items", Shown("p", "it1"))>>),
     Vt(<<For("it1", "items", Keyed(Co("Leaf", <<<<"x", V("it1")>>>>, <<>>, <<>>), V("it1")))>>),
     Vt(<<For("it1", "items", Keyed(Co("Leaf", X, <<>>, <<>>), V("it1")))>>),
     Keyed(P, V("x")),
     Keyed(Use("Leaf"), V("x")),
     Co("All", X, <<>>, <<>>),
     Co("All", <<>>, <<<<"done", "clo", V("x")>>>>, <<>>),
     El("p", <<>>, <<<<"click", "clo", <<"+", C("h"), V("x")>>>>>>, <<>>),
     Co("Leaf", <<>>, <<<<"done", "clo", V("x")>>>>, <<>>),
     Vt(<<Shown("p", "x"), P>>) >>

Writes ==
  << <<"set", "x", "a">>, <<"set", "x", "b">>, <<"set", "y", "a">>, <<"set", "y", "b">>,
     <<"quiet", <<"set", "zz", "a">>>>, <<"quiet", <<"set", "zz", "b">>>>,
     <<"set", "items", <<"i1", "i2">>>>, <<"mut", "items", <<"append", "i3">>>>,
     <<"mut", "items", <<"reverse">>>>, <<"mut", "items", <<"pop", "@0">>>>,
     <<"iset", <<"", 1>>, "s1", "a">>, <<"iset", <<"", 1>>, "s1", "b">> >>

ReadWorlds ==
  LET defs ==
        << Leaf,
           Def("Ignore", <<"x">>, S1, Tag("ul", <<P>>)),
           Def("Hoc", <<"x">>, S1, Co("Leaf", <<<<"x", V("x")>>>>, <<>>, <<>>)),
           Def("All", <<"x">>, S1, [P EXCEPT !.b = <<0, <<"R">>>>]),
           Def("Slotted", <<"x">>, S1, Tag("div", <<Sl("default", <<>>), Shown("p", "s1")>>)) >>
  IN << [World("reads", <<"h", "cgx", "mix">>, defs, Sites) EXCEPT !.writes = Writes] >>

-----------------------------------------------------------------------------
\* Elements with and without directives
Plain == <<P, Tx(<<"+", C("t"), V("x")>>), Co("Leaf", <<<<"x", V("x")>>>>, <<>>, <<>>)>>
Single(kind, name) ==
  CASE kind = "p" -> Shown("p", name)
    [] kind = "co" -> Co("Leaf", <<<<"x", V(name)>>>>, <<>>, <<>>)
    [] kind = "vt" -> Vt(<<Shown("p", name), Tx(V(name))>>)
    [] kind = "sl" -> Co("Box", <<>>, <<>>, <<Slot("default", <<Shown("p", name)>>)>>)
Kinds == <<"p", "co", "vt", "sl">>

Items ==
  Plain \o
  [i \in 1..4 |-> If(Is("x", "a"), Single(Kinds[i], "y"))] \o
  [i \in 1..4 |-> For("it1", "items", Single(Kinds[i], "it1"))] \o
  [i \in 1..2 |-> For("it1", "items", Keyed(Single(Kinds[i], "x"), V("it1")))] \o
  << IfElse(Is("x", "a"), Single("p", "y"), Single("co", "y")),
     IfElse(Is("x", "a"), Single("co", "x"), Single("co", "y")),
     IfElse(Is("x", "b"), Single("vt", "x"), Single("sl", "y")),
     [IfElse(Is("x", "a"), Single("p", "x"), Single("p", "y")) EXCEPT
        !.br = @ \o <<<<Is("y", "a"), Single("vt", "x")>>>>],
     [If(Is("x", "a"), Single("sl", "y")) EXCEPT
        !.br = @ \o <<<<Is("y", "a"), Single("p", "x")>>, <<Is("x", "b"), Single("co", "x")>>>>] >>

\* Text next to text would be one text
Tidy(seq) == \A i \in 1..(Len(seq) - 1) : ~(seq[i].k = "tx" /\ seq[i + 1].k = "tx")

Around(kind, c) ==
  CASE kind = "div" -> Tag("div", c)
    [] kind = "vt" -> Vt(c)
    [] kind = "box" -> Co("Box", <<>>, <<>>, <<Slot("default", c)>>)
    [] kind = "div-if" -> If(Is("y", "a"), Tag("div", c))
    [] kind = "vt-if" -> If(Is("y", "a"), Vt(c))
    [] kind = "box-if" -> If(Is("y", "a"), Co("Box", <<>>, <<>>, <<Slot("default", c)>>))
    [] kind = "div-else" -> IfElse(Is("y", "a"), P, Tag("div", c))
    [] kind = "vt-else" -> IfElse(Is("y", "a"), Use("Leaf"), Vt(c))
    [] kind = "div-for" -> For("it2", "items", Keyed(Tag("div", c), V("it2")))
    [] kind = "vt-for" -> For("it2", "items", Vt(c))
    [] kind = "box-for" -> For("it2", "items", Co("Box", <<>>, <<>>, <<Slot("default", c)>>))

Arounds == <<"div", "vt", "box", "div-if", "vt-if", "box-if", "div-else", "vt-else",
             "div-for", "vt-for", "box-for">>

Pairs ==
  LET Pair(a, b) == <<a, b>>
      all == Product(Pair, Items, Items) \o [i \in 1..Len(Items) |-> <<Items[i]>>]
  IN SelectSeq(all, Tidy)

Values ==
  LET Set2(x, y) == << <<"set", "x", x>>, <<"set", "y", y>> >>
      And(s, items) == s \o << <<"set", "items", items>> >>
  IN Product(And, Product(Set2, <<"a", "b", "c">>, <<"a", "b">>),
             << <<>>, <<"i1">>, <<"i2", "i1">> >>)

TemplWorlds ==
  LET defs == <<Leaf, Def("Box", <<>>, S1, Tag("ul", <<P, Sl("default", <<>>), P>>))>> IN
  << [World("templ", <<"cgx", "h">>, defs, Product(Around, Arounds, Pairs)) EXCEPT
        !.writes = Values, !.together = TRUE] >>

-----------------------------------------------------------------------------
\* What a component has as its root, of which the element depends on what is inside
RootContents ==
  LET X == <<<<"x", V("x")>>>>
      L == Co("Leaf", X, <<>>, <<>>)
  IN
  << <<P>>, <<Tag("ul", <<P>>)>>, <<Tx(V("x"))>>, <<L>>, <<Use("Two")>>, <<Use("None"), P>>,
     <<Use("None")>>, <<Vt(<<>>), Tag("ul", <<>>)>>, <<Vt(<<Vt(<<L>>), P>>)>>,
     <<If(Is("x", "a"), P), L>>, <<IfElse(Is("y", "a"), L, P)>>,
     <<For("it1", "items", Keyed(P, V("it1"))), Tag("ul", <<>>)>>,
     <<For("it1", "items", Keyed(L, V("it1")))>>,
     <<Keyed(P, C("k1")), Keyed(L, C("k2"))>>, <<Keyed(L, C("k2")), Keyed(P, C("k1"))>>,
     <<Keyed(Use("Two"), C("k1")), Keyed(Use("None"), C("k2"))>>,
     <<Keyed(Use("None"), C("k2")), Keyed(Use("Two"), C("k1"))>>,
     <<Use("Hoc"), Use("Fun")>>, <<Use("Fun"), Use("Hoc")>> >>

RootWorlds ==
  LET Child(tm) == Def("Child", <<"x">>, S1, tm)
      hole == <<Slot("default", <<Sl("default", <<>>)>>)>>
      more ==
        << Leaf, Def("Two", <<>>, S1, Vt(<<Shown("p", "s1"), Tag("ul", <<>>)>>)),
           Def("None", <<>>, S1, Vt(<<>>)),
           Def("Hoc", <<>>, S1, Use("Two")),
           Fun("Fun", <<>>, Use("Leaf")),
           Def("Inner", <<>>, S1, Vt(<<Sl("default", <<P>>)>>)),
           Fun("InFun", <<>>, Vt(<<Sl("default", <<P>>)>>)) >>
      Fill(i) == Co("Child", <<>>, <<>>, <<Slot("default", RootContents[i])>>)
      W(name, tm) == World("roots-" \o name, <<"h">>, <<Child(tm)>> \o more,
                           [i \in 1..Len(RootContents) |-> Fill(i)])
  IN
  << W("virtual", Vt(<<Sl("default", <<>>)>>)),
     W("slot", Sl("default", <<>>)),
     W("hoc", Co("Inner", <<>>, <<>>, hole)),
     W("function", Co("InFun", <<>>, <<>>, hole)),
     W("deep", Co("Inner", <<>>, <<>>, <<Slot("default", <<Co("Inner", <<>>, <<>>, hole)>>)>>)),
     W("second", Vt(<<Use("None"), Sl("default", <<>>), P>>)),
     W("state", Vt(<<If(Is("s1", "b"), P), Sl("default", <<>>)>>)) >>

-----------------------------------------------------------------------------
Worlds == RootWorlds \o SlotsWorlds \o PropsWorlds \o ChainWorlds \o ReadWorlds \o TemplWorlds
=============================================================================
