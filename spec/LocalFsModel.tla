---------------------------- MODULE LocalFsModel ----------------------------
(* The tree stays a tree under every sequence of operations, operations     *)
(* touch nothing but what they name, and publishing by a rename that does   *)
(* not replace lets exactly one of several writers win, whereas looking     *)
(* first and renaming afterwards does not.                                  *)
EXTENDS LocalFs

CONSTANTS Names, Depth, MaxOps, Exclusive

Paths == UNION {[1..n -> Names] : n \in 0..Depth}
VARIABLES s, n, last, race
vars == <<s, n, last, race>>
Ops == [k : {"mkdirs"}, p : Paths] \cup [k : {"put"}, p : Paths, b : {<<1>>}, over : BOOLEAN]
       \cup [k : {"store"}, p : Paths, b : {<<2>>}] \cup [k : {"delete"}, p : Paths \ {<<>>}, rec : BOOLEAN]
       \cup [k : {"rename"}, p : Paths \ {<<>>}, q : Paths, slash : {FALSE}]
Free == [pc |-> <<"look", "look">>, target |-> <<>>, owner |-> {}]
Init == s = Fresh /\ n = 0 /\ last = [k |-> "none"] /\ race = Free
Do == /\ n < MaxOps /\ n' = n + 1 /\ UNCHANGED race
      /\ \E o \in Ops : last' = [o EXCEPT !.k = o.k] /\ s' = Change(s, o).s
\* two processes publish one name: look whether it is free, then rename
Racing == \E p \in {1, 2} : /\ UNCHANGED <<s, n, last>>
            /\ \/ race.pc[p] = "look" /\ race' = [race EXCEPT !.pc[p] = IF race.target = <<>> THEN "rename" ELSE "lost"]
               \/ /\ race.pc[p] = "rename"
                  /\ race' = IF Exclusive /\ race.target # <<>> THEN [race EXCEPT !.pc[p] = "lost"]
                             ELSE [pc |-> [race.pc EXCEPT ![p] = "won"], target |-> <<p>>, owner |-> race.owner \cup {p}]
Next == Do \/ Racing
IsTree == Tree(s)
OneWinner == Cardinality(race.owner) <= 1
\* an operation changes only what lies at, below or above the paths it names
Local == [][\A p \in Nodes(s) : n' = n \/ LET o == last' IN
              \/ p \in Nodes(s') /\ IsD(s, p) = IsD(s', p)
              \/ o.p = p \/ Under(o.p, p)]_vars
=============================================================================
