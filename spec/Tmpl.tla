------------------------------- MODULE Tmpl -------------------------------
(***************************************************************************)
(* The template language: what a component describes, given the values of  *)
(* its props, its state and its slots.                                     *)
(*                                                                         *)
(* The same language is used for three purposes: TLC evaluates it in this  *)
(* module, the harness interprets it in hand written components (calls of  *)
(* `create_element`) and the harness prints it as the source of a .cgx     *)
(* single file component, which is compiled by the code under test.        *)
(*                                                                         *)
(* Expressions (sequences, the first item is the operator):                *)
(*   <<"c", value>>        constant (string or list)                       *)
(*   <<"v", name>>         a name, see Look                                *)
(*   <<"+", e1, e2>>       concatenation of strings                        *)
(*   <<"=", e1, e2>>       equality, "T" or "F"                            *)
(*   <<"!", e>>            negation                                        *)
(*   <<"f", e, field>>     field of a record                               *)
(*   <<"j", key, default>> injected value                                  *)
(*   <<"R">>               all props (for multiple bindings)               *)
(*   <<"m", e, pairs, default>> value of the first pair for e              *)
(*   <<"s", e>>            the value of e as text                          *)
(*   <<"h", name>>         whether a slot is provided: "T" or "F"          *)
(*                                                                         *)
(* Template nodes (records, field k is the kind):                          *)
(*   el  element             t, key, a, b, ev, c                           *)
(*   tx  text                e                                             *)
(*   vt  virtual element     t ("template"), key, c                        *)
(*   co  component           t, key, a, b, ev, s (slots: name and content, *)
(*                           "T" when the content is a list of nodes and   *)
(*                           not in a virtual element of its own)          *)
(*   sl  slot                n, a (slot props), c (fallback), w: "T" when   *)
(*                           wrapped in a virtual element of its own       *)
(*   if  conditional         br: sequence of <<condition, node>>, el       *)
(*   fo  loop                v, i, e, c (one node)                         *)
(* An absent key, index name or multiple binding is an empty sequence.     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, TLC

EmptyFn == [x \in {} |-> ""]

\* A sequence of pairs as function; the last pair with the same name prevails
RECURSIVE PairsToFn(_)
PairsToFn(ps) ==
  IF ps = <<>> THEN EmptyFn
  ELSE LET p == ps[Len(ps)] IN (p[1] :> p[2]) @@ PairsToFn(SubSeq(ps, 1, Len(ps) - 1))

FnGet(f, k, default) == IF k \in DOMAIN f THEN f[k] ELSE default

(***************************************************************************)
(* The environment in which expressions are evaluated:                     *)
(*   sc     names of the enclosing loops and slot props                    *)
(*   props, st, self, glob   what the component can refer to               *)
(*   pev    the handlers that are passed to the component                  *)
(*   slots  sequence of [n, body, env]: the content passed to it           *)
(*   chain  the instance and its ancestors (their paths in the tree)       *)
(*   prov   what the ancestors of the instance provide, nearest first      *)
(***************************************************************************)
\* Lookup order of a name in a template: local names, then props, state,
\* attributes of the instance, module.
Look(name, env) ==
  CASE name \in DOMAIN env.sc    -> env.sc[name]
    [] name \in DOMAIN env.props -> env.props[name]
    [] name \in DOMAIN env.st    -> env.st[name]
    [] name \in DOMAIN env.self  -> env.self[name]
    [] name \in DOMAIN env.glob  -> env.glob[name]
    [] OTHER -> "@unknown"

\* Nearest ancestor that provides the key
Inject(key, default, prov) ==
  LET has == { i \in 1..Len(prov) : key \in DOMAIN prov[i] } IN
  IF has = {} THEN default
  ELSE prov[CHOOSE i \in has : \A j \in has : i <= j][key]

SlotIdx(slots, name) == { i \in 1..Len(slots) : slots[i].n = name }

\* What python shows of values that are not strings
Text == "@0" :> "0" @@ "@1" :> "1" @@ "@2.5" :> "2.5" @@ "@true" :> "True"
        @@ "@false" :> "False" @@ "@null" :> "None" @@ "@[]" :> "[]" @@ "@{}" :> "{}"

RECURSIVE Ev(_, _)
Ev(e, env) ==
  CASE e[1] = "c" -> e[2]
    [] e[1] = "v" -> Look(e[2], env)
    [] e[1] = "+" -> Ev(e[2], env) \o Ev(e[3], env)
    [] e[1] = "=" -> IF Ev(e[2], env) = Ev(e[3], env) THEN "T" ELSE "F"
    [] e[1] = "!" -> IF Ev(e[2], env) = "T" THEN "F" ELSE "T"
    [] e[1] = "f" -> Ev(e[2], env)[e[3]]
    [] e[1] = "j" -> Inject(e[2], e[3], env.prov)
    [] e[1] = "R" -> env.props
    [] e[1] = "m" -> FnGet(PairsToFn(e[3]), Ev(e[2], env), e[4])
    [] e[1] = "s" -> LET v == Ev(e[2], env) IN FnGet(Text, v, v)
    [] e[1] = "h" -> IF SlotIdx(env.slots, e[2]) = {} THEN "F" ELSE "T"

EvPairs(ps, env) == PairsToFn([i \in 1..Len(ps) |-> <<ps[i][1], Ev(ps[i][2], env)>>])

\* Attributes: plain and bound attributes in order, the last one prevails.
\* A multiple binding (b: an expression for a record, and its position among the
\* attributes) is merged in between.
Attrs(t, env) ==
  LET key == IF t.key = <<>> THEN EmptyFn ELSE ("key" :> Ev(t.key, env))
      as  == IF t.b = <<>> THEN EvPairs(t.a, env)
             ELSE EvPairs(SubSeq(t.a, t.b[1] + 1, Len(t.a)), env)
                  @@ Ev(t.b[2], env)
                  @@ EvPairs(SubSeq(t.a, 1, t.b[1]), env)
  IN key @@ as

\* Events: <<name, kind, expression for the label of the handler>>. A method
\* (kind "bound") is bound to the instance of which the template is evaluated.
PassedOn(t) == "b" \in DOMAIN t /\ t.b # <<>> /\ t.b[2] = <<"R">>

\* Passing all props on includes the handlers (pev) and the key.
Events(t, env) ==
  PairsToFn([i \in 1..Len(t.ev) |->
    <<t.ev[i][1],
      [k |-> t.ev[i][2],
       l |-> Ev(t.ev[i][3], env),
       o |-> IF t.ev[i][2] = "bound" THEN env.chain ELSE <<>>]>>])
  @@ (IF PassedOn(t) THEN env.pev ELSE EmptyFn)

KeyOf(t, env) ==
  IF t.key # <<>> THEN Ev(t.key, env)
  ELSE IF PassedOn(t) THEN FnGet(env.props, "key", "") ELSE ""

\* Descriptions (virtual nodes)
Node(k, t, key, a, ev, c, sl, ow) ==
  [k |-> k, t |-> t, key |-> key, a |-> a, ev |-> ev, c |-> c, sl |-> sl, ow |-> ow]

RECURSIVE Expand(_, _), ExpandAll(_, _)

\* The sequence of descriptions for one template node
Expand(t, env) ==
  CASE t.k = "el" ->
         << Node("el", t.t, KeyOf(t, env), Attrs(t, env), Events(t, env),
                 ExpandAll(t.c, env), <<>>, env.chain) >>
    [] t.k = "tx" ->
         << Node("tx", "TEXT_ELEMENT", "", ("content" :> Ev(t.e, env)), EmptyFn,
                 <<>>, <<>>, <<>>) >>
    [] t.k = "vt" ->
         << Node("vt", t.t, KeyOf(t, env), EmptyFn, EmptyFn, ExpandAll(t.c, env),
                 <<>>, <<>>) >>
    [] t.k = "co" ->
         << Node("co", t.t, KeyOf(t, env), Attrs(t, env), Events(t, env), <<>>,
                 [i \in 1..Len(t.s) |->
                    [n |-> t.s[i][1], body |-> t.s[i][2], env |-> env,
                     raw |-> IF Len(t.s[i]) > 2 THEN t.s[i][3] ELSE "F"]],
                 env.chain) >>
    [] t.k = "sl" /\ t.w = "T" ->
         << Node("vt", "slot", "", EmptyFn, EmptyFn,
                 Expand([t EXCEPT !.w = "F"], env), <<>>, <<>>) >>
    [] t.k = "sl" ->
         LET idx == SlotIdx(env.slots, t.n) IN
         IF idx = {} THEN
           << Node("vt", "slot", "", EmptyFn, EmptyFn, ExpandAll(t.c, env), <<>>, <<>>) >>
         ELSE
           LET s == env.slots[CHOOSE i \in idx : TRUE]
               sc == EvPairs(t.a, env) @@ s.env.sc
               nodes == ExpandAll(s.body, [s.env EXCEPT !.sc = sc])
           IN IF s.raw = "T" THEN nodes
              ELSE << Node("vt", "template", "", EmptyFn, EmptyFn, nodes, <<>>, <<>>) >>
    [] t.k = "if" ->
         LET hit == { i \in 1..Len(t.br) : Ev(t.br[i][1], env) = "T" } IN
         IF hit # {} THEN
           Expand(t.br[CHOOSE i \in hit : \A j \in hit : i <= j][2], env)
         ELSE IF t.el = <<>> THEN <<>> ELSE Expand(t.el[1], env)
    [] t.k = "fo" ->
         LET items == Ev(t.e, env) IN
         FlattenSeq([i \in 1..Len(items) |->
           Expand(t.c[1],
             [env EXCEPT !.sc =
                (IF t.i = <<>> THEN EmptyFn ELSE (t.i[1] :> ToString(i - 1)))
                @@ (t.v :> items[i]) @@ env.sc])])

ExpandAll(ts, env) == FlattenSeq([i \in 1..Len(ts) |-> Expand(ts[i], env)])

(***************************************************************************)
(* Which names does an expansion look up? Pairs of the chain of the        *)
(* instance on which a name is looked up, and the name. Only the branches  *)
(* that are taken count, and the content of a slot counts where the slot   *)
(* is rendered.                                                            *)
(***************************************************************************)
RECURSIVE ReadE(_, _), ReadT(_, _), ReadAll(_, _)
ReadE(e, env) ==
  CASE e[1] = "v" -> IF e[2] \in DOMAIN env.sc THEN {} ELSE {<<env.chain, e[2]>>}
    [] e[1] \in {"+", "="} -> ReadE(e[2], env) \cup ReadE(e[3], env)
    [] e[1] \in {"!", "f", "m", "s"} -> ReadE(e[2], env)
    [] e[1] = "R" -> {<<env.chain, "*">>}
    [] OTHER -> {}

ReadT(t, env) ==
  LET props == UNION { ReadE(t.a[i][2], env) : i \in 1..Len(t.a) }
               \cup UNION { ReadE(t.ev[i][3], env) : i \in 1..Len(t.ev) }
               \cup (IF t.b = <<>> THEN {} ELSE ReadE(t.b[2], env))
      key == IF t.key = <<>> THEN {} ELSE ReadE(t.key, env)
  IN
  CASE t.k = "el" -> props \cup key \cup ReadAll(t.c, env)
    [] t.k = "co" -> props \cup key
    [] t.k = "tx" -> ReadE(t.e, env)
    [] t.k = "vt" -> key \cup ReadAll(t.c, env)
    [] t.k = "sl" ->
         LET idx == SlotIdx(env.slots, t.n) IN
         UNION { ReadE(t.a[i][2], env) : i \in 1..Len(t.a) } \cup
         (IF idx = {} THEN ReadAll(t.c, env)
          ELSE LET s == env.slots[CHOOSE i \in idx : TRUE] IN
               ReadAll(s.body, [s.env EXCEPT !.sc = EvPairs(t.a, env) @@ s.env.sc]))
    [] t.k = "if" ->
         LET hit == { i \in 1..Len(t.br) : Ev(t.br[i][1], env) = "T" }
             last == IF hit = {} THEN Len(t.br)
                     ELSE CHOOSE i \in hit : \A j \in hit : i <= j
         IN UNION { ReadE(t.br[i][1], env) : i \in 1..last } \cup
            (IF hit # {} THEN ReadT(t.br[last][2], env)
             ELSE IF t.el = <<>> THEN {} ELSE ReadT(t.el[1], env))
    [] t.k = "fo" ->
         LET items == Ev(t.e, env) IN
         ReadE(t.e, env) \cup
         UNION { ReadT(t.c[1],
                   [env EXCEPT !.sc =
                      (IF t.i = <<>> THEN EmptyFn ELSE (t.i[1] :> ToString(i - 1)))
                      @@ (t.v :> items[i]) @@ env.sc])
                 : i \in 1..Len(items) }

ReadAll(ts, env) == UNION { ReadT(ts[i], env) : i \in 1..Len(ts) }
=============================================================================
