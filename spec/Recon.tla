------------------------------- MODULE Recon -------------------------------
(***************************************************************************)
(* The lists of children between which the reconciler is asked to go: all  *)
(* lists of up to a number of items of an alphabet. An item has a key (or  *)
(* none, "") and a kind, which the harness knows descriptions for:         *)
(*   p, ul   elements                                                      *)
(*   tx      text (can't have a key)                                       *)
(*   co, fn  components (a class, a function) with one element             *)
(*   two     a component with two elements                                 *)
(*   none    a component without any element                               *)
(*   hoc     a component around another component                          *)
(*   vt      a virtual element with two elements                           *)
(*   v0      a virtual element that is empty                               *)
(* Keys are not used twice in the same list. Any list can follow any other *)
(* one, so the transitions are all pairs of lists of the same alphabet.    *)
(***************************************************************************)
EXTENDS Sequences, SequencesExt, FiniteSets, FiniteSetsExt, Naturals, Json, IOUtils

Deep == IOEnv.LEVEL = "thorough"

Items(keys, kinds) == keys \X kinds

Alphabets ==
  [perm |-> [items |-> Items({"a", "b", "c", "d"}, {"p"}) \cup
                       (IF Deep THEN Items({"e"}, {"p"}) ELSE {}),
             len |-> IF Deep THEN 5 ELSE 4],
   type |-> [items |-> Items({"a", "b"}, {"p", "ul", "co"}) \cup Items({""}, {"p"}),
             len |-> IF Deep THEN 3 ELSE 2],
   free |-> [items |-> Items({""}, {"p", "ul", "tx", "co", "two", "none", "v0"}),
             len |-> IF Deep THEN 3 ELSE 2],
   mix |-> [items |-> Items({"a", "b", "c"}, {"p"}) \cup Items({""}, {"p", "tx"}),
            len |-> IF Deep THEN 4 ELSE 3],
   many |-> [items |-> Items({"a", "b", "c"}, {"two"}) \cup Items({""}, {"none"}),
             len |-> IF Deep THEN 4 ELSE 3],
   kind |-> [items |-> Items({"a", "b"}, {"co", "fn", "two", "none", "hoc", "vt", "v0"}),
             len |-> 2]]

Fits(list) ==
  \A i, j \in 1..Len(list) : i # j /\ list[i][1] # "" => list[i][1] # list[j][1]

Lists(alphabet) ==
  { l \in UNION { [1..n -> alphabet.items] : n \in 0..alphabet.len } : Fits(l) }
=============================================================================
