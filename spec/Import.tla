------------------------------- MODULE Import -------------------------------
(***************************************************************************)
(* Files with components: which files are valid, what they define, where   *)
(* they are found, and how modules evolve when files change.               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

(***************************************************************************)
(* 1. Contents. A configuration determines the lines of a file.            *)
(***************************************************************************)
ClassKinds == {"component",  \* a component
               "named",      \* the same, with another name for the base class
               "inherits",   \* inherits from the class before it
               "plain"}      \* not a component

Tails == {"none", "function", "assign", "class-in-if", "class-in-function", "string",
          "decorated", "cmp", "unicode"}
Faults == {"script-syntax", "template-syntax", "raises", "no-script", "no-template",
           "missing-import", "no-children"}
Opens == {"line", "same-line", "attributes", "lines"}
Tops == {"none", "blank", "comment", "style"}

ClassSeqs(n) == UNION { [1..k -> ClassKinds] : k \in 0..n }

Config(order, top, open, classes, tail, roots, fault) ==
  [order |-> order, top |-> top, open |-> open, classes |-> classes, tail |-> tail,
   roots |-> roots, fault |-> fault]

Orders == {"template-first", "script-first"}

Plain == { <<"component">>, <<"plain", "component">>, <<"named", "inherits">> }

Configs ==
  { Config(o, "none", "line", cs, t, 1, "none") : o \in Orders, cs \in ClassSeqs(3), t \in Tails }
  \cup { Config(o, top, open, cs, t, 1, "none") :
           o \in Orders, top \in Tops, open \in Opens, cs \in Plain, t \in {"none", "function"} }
  \cup { Config(o, top, "line", cs, "none", r, "none") :
           o \in Orders, top \in Tops, cs \in Plain, r \in {0, 2, 3} }
  \cup { Config(o, top, open, cs, t, 1, f) :
           o \in Orders, top \in {"none", "blank"}, open \in Opens, cs \in Plain,
           t \in {"none", "function"}, f \in Faults }

Digit(i) == ToString(i)

RECURSIVE IsComponent(_, _)
IsComponent(cs, i) ==
  CASE cs[i] = "plain" -> FALSE
    [] cs[i] = "inherits" -> i = 1 \/ IsComponent(cs, i - 1)
    [] OTHER -> TRUE

ClassLines(cs, i) ==
  LET base == CASE cs[i] = "component" -> "(cg.Component)"
                [] cs[i] = "named" -> "(Base)"
                [] cs[i] = "inherits" -> IF i = 1 THEN "(cg.Component)"
                                         ELSE "(C" \o Digit(i - 1) \o ")"
                [] OTHER -> ""
  IN << "", "", "class C" \o Digit(i) \o base \o ":",
        "    value = " \o Digit(i), "",
        "    def where(self):",
        "        raise LookupError(" \o Digit(i) \o ")" >>

RECURSIVE AllClassLines(_, _)
AllClassLines(cs, i) ==
  IF i > Len(cs) THEN <<>> ELSE ClassLines(cs, i) \o AllClassLines(cs, i + 1)

TailLines(c) ==
  CASE c.tail = "function" -> <<"", "def later():", "    raise LookupError(0)">>
    [] c.tail = "assign" -> <<"", "other = marker">>
    [] c.tail = "class-in-if" -> <<"", "if True:", "    class Hidden(cg.Component):", "        pass">>
    [] c.tail = "class-in-function" ->
         <<"", "def make():", "    class Hidden(cg.Component):", "        pass", "    return Hidden">>
    [] c.tail = "string" -> <<"", "other = 'class Hidden(cg.Component):'">>
    [] c.tail = "decorated" -> <<"", "", "def later():", "    # class Hidden(cg.Component):", "    raise LookupError(0)">>
    [] c.tail = "unicode" -> <<"", "other = 'UNI'">>   \* stands for characters outside of ASCII
    [] c.tail = "cmp" -> <<"", "other = 1 < 2 > 0 and '<b>' + '</b>'">>
    [] OTHER -> <<>>

Code(c) ==
  <<"import collagraph as cg">>
  \o (IF c.fault = "missing-import" THEN <<"import vp_there_is_no_such_module">> ELSE <<>>)
  \o <<"Base = cg.Component", "marker = 'shown'">>
  \o (IF c.fault = "script-syntax" THEN <<"", "other = = 1">> ELSE <<>>)
  \o AllClassLines(c.classes, 1)
  \o (IF c.fault = "raises" THEN <<"", "raise LookupError('module')">> ELSE <<>>)
  \o TailLines(c)

Script(c) ==
  IF c.fault = "no-script" THEN <<>>
  ELSE (CASE c.open = "same-line" -> << "<script>" \o Code(c)[1] >>
          [] c.open = "attributes" -> << "<script lang=\"python\">", Code(c)[1] >>
          [] c.open = "lines" -> << "<script", "  lang=\"python\"", ">", "", Code(c)[1] >>
          [] OTHER -> << "<script>", Code(c)[1] >>)
       \o Tail(Code(c)) \o << "</script>" >>

Root == << "  <item", "    :a=\"marker\"", "  />" >>
BadRoot == << "  <item :a=\"marker +\" />" >>

Template(c) ==
  CASE c.fault = "no-template" -> <<>>
    [] c.fault = "no-children" -> << "<template></template>" >>
    [] OTHER -> << "<template>" >>
       \o (IF c.fault = "template-syntax" THEN BadRoot
           ELSE CASE c.roots = 0 -> << "  text" >>
                  [] c.roots = 1 -> Root
                  [] c.roots = 2 -> Root \o Root
                  [] OTHER -> Root \o << "  text" >> \o Root \o Root)
       \o << "</template>" >>

Top(c) == CASE c.top = "blank" -> << "", "" >>
            [] c.top = "comment" -> << "<!-- <script> and UNI", "<template> -->" >>
            [] c.top = "style" -> << "<style>", "a { color: red }", "</style>" >>
            [] OTHER -> <<>>

Lines(c) == Top(c) \o (IF c.order = "script-first" THEN Script(c) \o << "" >> \o Template(c)
                       ELSE Template(c) \o << "" >> \o Script(c))

LineOf(c, text) == LET ls == Lines(c) IN
  IF \E i \in 1..Len(ls) : ls[i] = text THEN CHOOSE i \in 1..Len(ls) : ls[i] = text ELSE 0

Valid(c) == /\ c.fault = "none"
            /\ c.roots = 1
            /\ c.classes # <<>>
            /\ IsComponent(c.classes, Len(c.classes))

\* The names that a valid file defines (at least)
Names(c) ==
  {"cg", "Base", "marker"} \cup { "C" \o Digit(i) : i \in 1..Len(c.classes) }
  \cup (CASE c.tail \in {"function", "decorated"} -> {"later"}
          [] c.tail \in {"assign", "string", "cmp", "unicode"} -> {"other"}
          [] c.tail = "class-in-if" -> {"Hidden"}
          [] c.tail = "class-in-function" -> {"make"}
          [] OTHER -> {})

LastClass(c) == "C" \o Digit(Len(c.classes))

\* Lines of errors that are raised by functions of the file: <<function, line>>
Errors(c) ==
  { <<"C" \o Digit(i), LineOf(c, "        raise LookupError(" \o Digit(i) \o ")")>> :
      i \in 1..Len(c.classes) }
  \cup (IF c.tail \in {"function", "decorated"}
        THEN { <<"later", LineOf(c, "    raise LookupError(0)")>> } ELSE {})

\* The line of the error with which an invalid file is refused (0: no such line)
ErrorLine(c) ==
  CASE c.fault = "script-syntax" -> LineOf(c, "other = = 1")
    [] c.fault = "raises" /\ c.classes # <<>> -> LineOf(c, "raise LookupError('module')")
    [] c.fault = "missing-import" -> LineOf(c, "import vp_there_is_no_such_module")
    [] OTHER -> 0

\* Judgement of <<config, route, exc, line, file, last, names, renders, errors, shown, other>>
ContentClauses(o) ==
  LET c == o.config IN
  IF ~Valid(c)
  THEN (IF o.exc = <<>> THEN {"import.accepted"} ELSE {})
       \cup (IF o.exc # <<>> /\ ErrorLine(c) # 0 /\ o.line # ErrorLine(c)
             THEN {"import.error-line"} ELSE {})
       \cup (IF o.left # <<>> THEN {"import.left-behind"} ELSE {})
  ELSE IF o.exc # <<>> THEN {"import.refused"}
  ELSE (IF o.last # LastClass(c) THEN {"import.component"} ELSE {})
       \cup (IF \E n \in Names(c) : ~\E i \in 1..Len(o.names) : o.names[i] = n
             THEN {"import.names"} ELSE {})
       \cup (IF c.tail = "unicode" /\ o.other # "UNI" THEN {"import.value"} ELSE {})
       \* Only the last class gets the template
       \cup (IF o.renders # << LastClass(c) >> THEN {"import.render"} ELSE {})
       \cup (IF o.shown # << "shown" >> THEN {"import.shown"} ELSE {})
       \cup (IF { o.errors[i] : i \in 1..Len(o.errors) } # Errors(c)
             THEN {"import.line-numbers"} ELSE {})
       \cup (IF ~o.file THEN {"import.file"} ELSE {})

(***************************************************************************)
(* 2. Where modules are found: directories in order, with the files that   *)
(* are in them. Modules of other kinds come first, in all directories.     *)
(***************************************************************************)
Dirs == 3
Layouts == [1..Dirs -> SUBSET {"py", "cgx"}]

Found(layout) ==
  LET first(kind) == CHOOSE i \in 1..Dirs : /\ kind \in layout[i]
                                            /\ \A j \in 1..(i - 1) : kind \notin layout[j]
  IN IF \E i \in 1..Dirs : "py" \in layout[i] THEN <<first("py"), "py">>
     ELSE IF \E i \in 1..Dirs : "cgx" \in layout[i] THEN <<first("cgx"), "cgx">>
     ELSE <<0, "none">>

FindClauses(o) ==
  LET layout == [i \in 1..Dirs |-> { o.layout[i][j] : j \in 1..Len(o.layout[i]) }]
  IN IF o.found # Found(layout) THEN {"import.found-elsewhere"} ELSE {}

(***************************************************************************)
(* 3. Histories: files change, modules are imported and reloaded.          *)
(*   disk    what is in the file      mod     what the module contains     *)
(***************************************************************************)
Files == {"a", "b"}
Contents == {"v1", "v2", "bad"}
Ops == { <<"write", f, x>> : f \in Files, x \in Contents }
       \cup { <<"delete", f, "">> : f \in Files }
       \cup { <<op, f, "">> : op \in {"import", "reload", "load", "string", "forget"},
                              f \in Files }

\* State: <<disk, mod>>; Result: <<state, outcome>>
Do(s, op) ==
  LET f == op[2]
      d == s[1][f]
      m == s[2][f]
      ok == d \in {"v1", "v2"}
      taken == << <<s[1], [s[2] EXCEPT ![f] = d]>>, d >>
  IN CASE op[1] = "write" -> << <<[s[1] EXCEPT ![f] = op[3]], s[2]>>, "" >>
       [] op[1] = "delete" -> << <<[s[1] EXCEPT ![f] = "none"], s[2]>>, "" >>
       [] op[1] = "import" -> IF m # "none" THEN << s, m >>
                              ELSE IF ok THEN taken ELSE << s, "error" >>
       [] op[1] = "reload" -> IF ok THEN taken ELSE << s, "error" >>
       [] op[1] = "load" -> << s, IF ok THEN d ELSE "error" >>
       [] op[1] = "string" -> << s, IF ok THEN d ELSE "error" >>
       [] op[1] = "forget" -> << <<s[1], [s[2] EXCEPT ![f] = "none"]>>, "" >>

Enabled(s, op) ==
  CASE op[1] \in {"reload", "forget"} -> s[2][op[2]] # "none"
    [] op[1] = "string" -> s[1][op[2]] # "none"
    [] op[1] = "delete" -> s[1][op[2]] # "none"
    [] op[1] = "write" -> s[1][op[2]] # op[3]
    [] OTHER -> TRUE

Start == << [f \in Files |-> "none"], [f \in Files |-> "none"] >>

\* Rows: <<op, outcome, modules as they are after it>>
RECURSIVE Run(_, _, _)
Run(rows, i, s) ==
  IF i > Len(rows) THEN {}
  ELSE LET r == Do(s, rows[i].op)
           n == rows[i]
       IN (IF n.outcome # r[2] THEN {<<i, "import.outcome">>} ELSE {})
          \cup (IF \E f \in Files : n.mods[f] # r[1][2][f] THEN {<<i, "import.module-changed">>} ELSE {})
          \cup Run(rows, i + 1, r[1])
=============================================================================
