-------------------------------- MODULE Pack --------------------------------
(***************************************************************************)
(* Packaging: which modules are imported by the scripts of .cgx files, and *)
(* which files are part of a package, for PyInstaller.                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

\* The modules that use collagraph: their name, and the package of the folder they are in
Users == { [name |-> "app", package |-> <<"app">>, init |-> TRUE],
           [name |-> "app.main", package |-> <<"app">>, init |-> FALSE],
           [name |-> "app.part", package |-> <<"app", "part">>, init |-> TRUE],
           [name |-> "app.part.main", package |-> <<"app", "part">>, init |-> FALSE],
           [name |-> "solo", package |-> <<>>, init |-> FALSE] }

\* Folders below the one of the user
Depths == { <<>>, <<"sub">>, <<"sub", "deep">> }

Kinds == {"import", "alias", "dotted", "several", "from", "from-alias", "from-dotted", "star",
          "relative", "relative-several", "relative-module", "relative-alias", "above",
          "above-module", "none"}
Places == {"top", "function", "method", "class", "if", "else", "try", "except", "with",
           "for", "nested"}

Line(k) ==
  CASE k = "import" -> "import m1"
    [] k = "alias" -> "import m1 as z"
    [] k = "dotted" -> "import m1.n1"
    [] k = "several" -> "import m1, m2.n2 as z"
    [] k = "from" -> "from m1 import n1, n2"
    [] k = "from-alias" -> "from m1 import n1 as z"
    [] k = "from-dotted" -> "from m1.n1 import n2"
    [] k = "star" -> "from m1 import *"
    [] k = "relative" -> "from . import n1"
    [] k = "relative-several" -> "from . import n1, n2 as z"
    [] k = "relative-module" -> "from .m1 import n1"
    [] k = "relative-alias" -> "from .m1.n1 import n2 as z"
    [] k = "above" -> "from .. import n1"
    [] k = "above-module" -> "from ..m1 import n1"
    [] OTHER -> "pass"

RECURSIVE Dots(_)
Dots(p) == IF p = <<>> THEN "" ELSE IF Len(p) = 1 THEN p[1] ELSE p[1] \o "." \o Dots(Tail(p))

\* The names that are imported by a line of a file in package p
Imported(k, p) ==
  LET up == SubSeq(p, 1, Len(p) - 1) IN
  CASE k \in {"import", "alias"} -> {"m1"}
    [] k = "dotted" -> {"m1.n1"}
    [] k = "several" -> {"m1", "m2.n2"}
    [] k = "from" -> {"m1", "m1.n1", "m1.n2"}
    [] k = "from-alias" -> {"m1", "m1.n1"}
    [] k = "from-dotted" -> {"m1.n1", "m1.n1.n2"}
    [] k = "star" -> {"m1"}
    [] k = "relative" -> { Dots(p), Dots(p \o <<"n1">>) }
    [] k = "relative-several" -> { Dots(p), Dots(p \o <<"n1">>), Dots(p \o <<"n2">>) }
    [] k = "relative-module" -> { Dots(p \o <<"m1">>), Dots(p \o <<"m1", "n1">>) }
    [] k = "relative-alias" -> { Dots(p \o <<"m1", "n1">>), Dots(p \o <<"m1", "n1", "n2">>) }
    [] k = "above" -> { Dots(up), Dots(up \o <<"n1">>) }
    [] k = "above-module" -> { Dots(up \o <<"m1">>), Dots(up \o <<"m1", "n1">>) }
    [] OTHER -> {}

\* Not needed, but harmless: what all files import, and packages of what is imported
Allowed == {"collagraph", "m1", "m2", "m1.*", "app", "app.part", "app.part.sub", "app.sub",
            "app.part.sub.deep", "app.sub.deep", "app.m1", "app.part.m1", "app.sub.m1",
            "app.part.sub.m1", "app.sub.deep.m1", "app.part.sub.deep.m1", "sub", "sub.deep",
            "sub.m1", "sub.deep.m1"}

\* Relative imports need a package
Possible(k, p) ==
  CASE k \in {"relative", "relative-several", "relative-module", "relative-alias"} -> p # <<>>
    [] k \in {"above", "above-module"} -> Len(p) >= 2
    [] OTHER -> TRUE

\* A file: in which folder, and what it imports in which place
FileOf(u, d, k, w) == [folder |-> u.package \o d, kind |-> k, place |-> w]

\* One user with a file, or two users with files
Configs ==
  { [users |-> <<u>>, files |-> <<FileOf(u, d, k, w)>>] :
      u \in Users, d \in Depths, k \in Kinds, w \in Places }
  \cup { [users |-> <<u, v>>, files |-> << FileOf(u, d, k, "top"), FileOf(v, <<>>, l, "method") >>] :
           u \in Users, v \in Users, d \in Depths, k \in Kinds, l \in {"import", "relative-module"} }

Sensible(c) ==
  /\ \A i \in 1..Len(c.files) : Possible(c.files[i].kind, c.files[i].folder)
  /\ Len(c.users) = 2 => c.users[1] # c.users[2]

\* The files that a user has: everything in its folder and below
Below(u, f) == Len(u.package) <= Len(f.folder) /\ SubSeq(f.folder, 1, Len(u.package)) = u.package

Must(c) == UNION { Imported(c.files[i].kind, c.files[i].folder) : i \in 1..Len(c.files) }

\* Rows: <<config, imports, datas (numbers of files), exc>>
Clauses(o) ==
  LET c == [users |-> o.config.users, files |-> o.config.files]
      got == { o.imports[i] : i \in 1..Len(o.imports) }
      files == { i \in 1..Len(c.files) : \E j \in 1..Len(c.users) : Below(c.users[j], c.files[i]) }
  IN IF o.exc # "" THEN {"pack.error"}
     ELSE (IF ~(Must(c) \subseteq got) THEN {"pack.missing"} ELSE {})
          \cup (IF ~(got \subseteq Must(c) \cup Allowed) THEN {"pack.wrong"} ELSE {})
          \cup (IF { o.datas[i] : i \in 1..Len(o.datas) } # files THEN {"pack.files"} ELSE {})
=============================================================================
