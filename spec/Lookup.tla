------------------------------- MODULE Lookup -------------------------------
(***************************************************************************)
(* Names in the expressions of templates: where their values come from.    *)
(*                                                                         *)
(* A configuration is one template of one component class: a kind of name  *)
(* and a position (a piece of template that has the name in it, see        *)
(* harness/lookup.py). The state is the set of places in which the name is *)
(* defined at that moment. Every value is the name of its own place.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

\* What the name is, apart from the places where it is defined
Kinds == {"plain",           \* nothing special
          "builtin",         \* one of the builtins
          "from-import", "import-as", "import-package",
          "from-import-as", "from-import-many", "import-many", "from-package",
          "import-sub-as",   \* `import package.sub as name`
          "import-try", "import-if", "import-with", "import-late",
          "import-twice",    \* imported under this name and under another one
          "original", "original-module", "original-sub", "import-in-class",
          "import-in-method",  \* imported within a method: nothing special
          "self-name",       \* `self.name` is written instead of `name`
          "state-name",      \* `state['name']`
          "props-name"}

Imports == {"from-import", "import-as", "import-package", "from-import-as",
            "from-import-many", "import-many", "from-package", "import-sub-as", "import-try",
            "import-if", "import-with", "import-late", "import-twice"}

\* `from module import original as name`: the original name is not special
\* (likewise for `import original as name`, and for `import original.name`)
Originals == {"original", "original-module", "original-sub"}

Places == {"prop", "state", "self", "global"}

\* The order in which places are searched
Order == <<"prop", "state", "self", "global">>

Ordinary == {"plain", "import-in-method", "import-in-class"} \cup Originals

\* The places that a configuration can have
Possible(kind) ==
  IF kind \in Imports \cup {"builtin"} THEN Places \ {"global"} ELSE Places

\* Configurations in which the name is defined
Defined(kind, places) ==
  CASE kind \in Ordinary -> places # {}
    [] kind = "self-name" -> "self" \in places
    [] kind = "state-name" -> "state" \in places
    [] kind = "props-name" -> "prop" \in places
    [] OTHER -> TRUE

Resolve(kind, places) ==
  CASE kind \in Imports -> "import"
    [] kind = "builtin" -> "builtin"
    [] kind = "self-name" -> "self"
    [] kind = "state-name" -> "state"
    [] kind = "props-name" -> "prop"
    [] OTHER -> Order[CHOOSE i \in 1..4 : /\ Order[i] \in places
                                          /\ \A j \in 1..(i - 1) : Order[j] \notin places]

\* The values that a position shows, in order: "outer" is a name that is not defined
\* by the template itself, "local" is one that is.
Outer == <<"outer">>
Local == <<"local">>

OuterPositions == {
  "attr", "v-bind-attr", "v-bind", "v-bind-middle", "v-bind-merge", "text", "text-middle",
  "if", "elif", "if-nested", "else-after", "for-iter", "for-iter2", "for-iter-nested",
  "for-cond", "for-attr", "for-nested", "for-if-child", "for-sibling", "for-same",
  "for-same-nested", "for-text", "for-method", "on-lambda", "on-args", "on-call", "on-default", "on-v",
  "comp-attr", "comp-if", "comp-vbind", "comp-on", "slot-default", "slot-named", "slot-v",
  "slot-text", "slot-on", "slot-if", "slot-for-iter", "slot-nested", "slot-comp",
  "slot-fallback", "template-if", "template-for", "template-plain", "root",
  "call", "method", "index", "slice", "key", "value", "ifexp", "ifexp-test", "bool", "fstring",
  "fstring-spec", "star", "double-star", "keyword", "compare", "binop", "tuple", "nested-call",
  "lambda-body", "lambda-default", "lambda-default-same", "lambda-kwdefault",
  "lambda-inner", "lambda-after", "lambda-compr", "compr-first", "compr-same", "compr-cond",
  "compr-body", "compr-after", "compr-second", "set-first", "dict-first", "gen-first",
  "gen-same", "compr-nested-first", "compr-lambda", "multiline"}

LocalPositions == {
  "for-local", "for-tuple", "for-tuple-nested", "for-star", "for-enumerate", "for-list",
  "for-two", "for-first-of-two", "for-local-cond", "for-local-text", "for-local-if", "for-local-on",
  "for-local-comp", "for-local-slot", "for-local-child", "for-local-deep", "for-local-compr",
  "for-local-lambda", "for-local-inner-iter", "for-local-template", "for-local-v-bind",
  "for-local-elif", "for-shadow",
  "slot-for", "slot-inside-for", "lambda-arg", "lambda-posonly", "lambda-kwonly",
  "lambda-vararg", "lambda-kwarg", "lambda-nested", "lambda-shadow", "compr-local",
  "compr-two", "compr-tuple", "compr-star", "compr-in-cond", "set-local", "dict-local", "dict-local-value",
  "gen-local", "compr-nested", "compr-in-lambda", "on-lambda-arg", "on-compr"}

MixedPositions ==
  ("for-leak" :> <<"local", "outer">>) @@ ("for-leak-if" :> <<"local", "outer">>) @@
  ("for-leak-before" :> <<"outer", "local">>) @@
  ("for-leak-for" :> <<"local", "outer">>) @@ ("for-leak-slot" :> <<"local", "outer">>) @@
  ("for-leak-nested" :> <<"local", "outer", "outer">>) @@
  ("lambda-leak" :> <<"local", "outer">>) @@ ("compr-leak" :> <<"local", "outer">>) @@
  ("many" :> <<"outer", "outer", "outer">>) @@
  ("attribute" :> <<"attribute">>) @@ ("attribute-of-call" :> <<"attribute">>) @@
  ("plain-string" :> <<"string">>) @@ ("keyword-name" :> <<"keyword">>) @@
  ("attr-name" :> <<"string", "outer">>) @@
  ("on-two" :> <<"outer", "outer">>)

Positions == OuterPositions \cup LocalPositions \cup DOMAIN MixedPositions

Shown(pos) == IF pos \in OuterPositions THEN Outer
              ELSE IF pos \in LocalPositions THEN Local ELSE MixedPositions[pos]

Expected(kind, pos, places) ==
  LET o == Resolve(kind, places)
  IN [i \in 1..Len(Shown(pos)) |-> IF Shown(pos)[i] = "outer" THEN o ELSE Shown(pos)[i]]

(***************************************************************************)
(* The history of one instance: places come and go, one at a time          *)
(***************************************************************************)
Configs ==
  { <<k, p>> : k \in {"builtin"} \cup Ordinary \cup Imports, p \in Positions }
  \cup { <<k, p>> : k \in {"self-name", "state-name", "props-name"}, p \in OuterPositions }

States(kind) == { s \in SUBSET Possible(kind) : Defined(kind, s) }
Toggles(kind) ==
  { <<SetToSeq(s), SetToSeq(t)>> :
      <<s, t>> \in { e \in States(kind) \X States(kind) :
                       Cardinality((e[1] \ e[2]) \cup (e[2] \ e[1])) = 1 } }

(***************************************************************************)
(* Judgement of rows [places, shown, exc]                                  *)
(***************************************************************************)
Set(seq) == { seq[i] : i \in 1..Len(seq) }

RowClauses(trace, row) ==
  LET places == Set(row.places) IN
  IF ~Defined(trace.kind, places) /\ "outer" \in Set(Shown(trace.pos))
  THEN IF row.exc # <<>> THEN {} ELSE {"name.found-nevertheless"}
  ELSE IF row.exc # <<>> THEN {"exc." \o row.exc[1]}
  ELSE IF row.shown # Expected(trace.kind, trace.pos, places) THEN {"name.wrong-place"}
  ELSE {}
=============================================================================
