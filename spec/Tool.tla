-------------------------------- MODULE Tool --------------------------------
(***************************************************************************)
(* The command line program: which arguments it takes, what it shows at    *)
(* first, and how that follows the props and the state of the component.   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

(***************************************************************************)
(* 1. Arguments.                                                           *)
(***************************************************************************)
Renderers == {"dict", "pyside", "pygfx"}
\* "" is the default one, the others are not valid
RendererArgs == Renderers \cup {"", "qt", "Dict", "dom"}

FileKinds == {"good",      \* a component
              "spaced",    \* the same, in a folder and with a name with spaces
              "upper",     \* not a component: the suffix is not that of a component
              "suffix",    \* the same
              "folder",    \* a folder of which the name is that of a component
              "missing",   \* there is no such file
              "broken",    \* the script is not valid
              "empty",     \* a file without anything
              "none",      \* no argument at all
              "two"}       \* two components

StateKinds == {"none", "one", "two", "empty", "spaces", "nested", "types", "unicode", "long",
               "quoted", "invalid", "cut", "single-quotes", "word", "no-value", "list", "number",
               "true"}
\* How the state is given: as the argument itself, or in a file
Ways == {"text", "file"}
Forms == {"before", "after", "equals"}

Doubled(s) == s \o s
Many == Doubled(Doubled(Doubled(Doubled(Doubled(Doubled("0123456789"))))))

\* The text of the argument
Text(k) ==
  CASE k = "one" -> "{\"a\": \"x\"}"
    [] k = "two" -> "{\"b\": \"y\", \"a\": \"x\"}"
    [] k = "empty" -> "{}"
    [] k = "spaces" -> " {\n \"a\" :\t\"x\" }\n"
    [] k = "nested" -> "{\"a\": {\"b\": [\"x\", {\"c\": \"y\"}]}}"
    [] k = "types" -> "{\"a\": [1, 0, true, false, null, 1.5, \"\"], \"b\": 0}"
    [] k = "unicode" -> "{\"a\": \"UNI\", \"b\": \"\\u00e9\"}"
    [] k = "long" -> "{\"a\": \"" \o Many \o "\"}"
    [] k = "quoted" -> "{\"a\": \"{\\\"b\\\": 1}\"}"
    [] k = "invalid" -> "{a: 1}"
    [] k = "cut" -> "{\"a\": \"x\""
    [] k = "single-quotes" -> "{'a': 'x'}"
    [] k = "word" -> "state"
    [] k = "list" -> "[\"a\"]"
    [] k = "number" -> "7"
    [] k = "true" -> "true"
    [] OTHER -> ""

\* The props that the component has, as the texts that it shows for them
Props(k) ==
  LET is(a, b) == [a |-> a, b |-> b] IN
  CASE k \in {"one", "spaces"} -> is("x", "")
    [] k = "two" -> is("x", "y")
    [] k = "nested" -> is("{b:[x,{c:y}]}", "")
    [] k = "types" -> is("[1,0,True,False,None,1.5,]", "0")
    [] k = "unicode" -> is("UNI", "E-ACUTE")
    [] k = "long" -> is(Many, "")
    [] k = "quoted" -> is("{\"b\": 1}", "")
    [] OTHER -> is("", "")

\* What the program does: it shows the component, or it refuses the arguments with a message
\* about its usage, or it ends with the error of the component
BadState == {"invalid", "cut", "single-quotes", "word", "no-value"}
NotProps == {"list", "number", "true"}
Usage(c) == \/ c.renderer \notin Renderers \cup {""}
            \/ c.file \in {"upper", "suffix", "folder", "missing", "none", "two"}
            \/ c.state \in BadState
Outcomes(c) ==
  IF Usage(c) THEN {"usage"}
  ELSE IF c.state \in NotProps THEN {"usage", "error"}
  ELSE IF c.file \in {"broken", "empty"} THEN {"error"}
  ELSE {"shown"}

Config(r, f, s, w, o) == [renderer |-> r, file |-> f, state |-> s, way |-> w, form |-> o]

Configs ==
  { Config("dict", f, s, w, o) : f \in FileKinds, s \in StateKinds, w \in Ways, o \in {"before"} }
  \cup { Config(r, f, s, "text", o) :
           r \in RendererArgs, f \in FileKinds, s \in {"none", "one", "invalid"}, o \in Forms }
  \cup { Config(r, "good", s, w, o) :
           r \in Renderers \cup {""}, s \in StateKinds, w \in Ways, o \in {"after"} }

\* Whether a configuration makes sense
Sensible(c) == /\ c.state = "none" => c.way = "text"
               /\ c.state = "no-value" => c.way = "text" /\ c.form = "after"

(***************************************************************************)
(* 2. What is shown: the props and the state of the component.             *)
(***************************************************************************)
Keys == {"a", "b"}
Values == {"x", "y"}
Ops == { <<"set", k, v>> : k \in Keys, v \in Values }
       \cup { <<"delete", k, "">> : k \in Keys }
       \cup { <<"put", "a", "{b:[" \o v \o "]}">> : v \in Values }
       \cup { <<"deep", "a", v>> : v \in Values }      \* a value within the value of a
       \cup { <<"count", "", "">>, <<"both", "", "">> }

Shown(s) == (IF s.a = "" THEN "" ELSE "a=" \o s.a \o " ")
            \o (IF s.b = "" THEN "" ELSE "b=" \o s.b \o " ")
            \o "n=" \o ToString(s.n)

Deep == { "{b:[" \o v \o "]}" : v \in Values }

Enabled(s, op) ==
  CASE op[1] = "delete" -> s[op[2]] # ""
    [] op[1] = "deep" -> s.a \in Deep
    \* observ doesn't notice a value that replaces an equal one (see DESIGN.md)
    [] op[1] = "put" -> s.a # op[3]
    [] OTHER -> TRUE

Do(s, op) ==
  CASE op[1] \in {"set", "put"} -> [s EXCEPT ![op[2]] = op[3]]
    [] op[1] = "delete" -> [s EXCEPT ![op[2]] = ""]
    [] op[1] = "deep" -> [s EXCEPT !.a = "{b:[" \o op[3] \o "]}"]
    [] op[1] = "count" -> [s EXCEPT !.n = 1 - s.n]
    [] op[1] = "both" -> [s EXCEPT !.n = 1 - s.n, !.b = "y"]

Start(k) == [a |-> Props(k).a, b |-> Props(k).b, n |-> 0]

(***************************************************************************)
(* Judgement. Rows: the first one has the configuration, the outcome, and  *)
(* what is shown; the others have an operation and what is shown after it. *)
(* `drawn`: whether the result was drawn after it ended up in the tree.    *)
(***************************************************************************)
RECURSIVE Rest(_, _, _)
Rest(rows, i, s) ==
  IF i > Len(rows) THEN {}
  ELSE LET t == Do(s, rows[i].op)
       IN (IF rows[i].shown # Shown(t) THEN {<<i, "tool.shown">>} ELSE {})
          \cup (IF Shown(t) # Shown(s) /\ ~rows[i].drawn THEN {<<i, "tool.drawn">>} ELSE {})
          \cup Rest(rows, i + 1, t)

Judge(rows) ==
  LET first == rows[1]
      c == first.config
  IN IF first.outcome \notin Outcomes(c) THEN {<<1, "tool.outcome">>}
     ELSE IF first.outcome # "shown"
     THEN (IF first.shown # "" THEN {<<1, "tool.rendered-anyway">>} ELSE {})
     ELSE (IF first.shown # Shown(Start(c.state)) THEN {<<1, "tool.shown">>} ELSE {})
          \cup (IF first.kind # (IF c.renderer = "" THEN "pyside" ELSE c.renderer)
                THEN {<<1, "tool.renderer">>} ELSE {})
          \cup (IF ~first.drawn THEN {<<1, "tool.drawn">>} ELSE {})
          \cup Rest(rows, 2, Start(c.state))
=============================================================================
