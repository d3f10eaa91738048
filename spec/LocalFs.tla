------------------------------ MODULE LocalFs ------------------------------
(* A tree of named byte sequences.  A path is a sequence of names; the      *)
(* root <<>> always exists.  A file is an object of its own, so that open   *)
(* streams stay with it when its name is removed or changed.  What was      *)
(* written but not flushed may or may not be visible yet.                   *)
(*                                                                          *)
(* state: dirs   paths of directories                                       *)
(*        names  paths of files -> file                                     *)
(*        data   file -> [vis, pend]  visible bytes and those not flushed   *)
(*        hs     stream -> [open, w, f, pos]                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Prefix(p, n) == SubSeq(p, 1, n)
Parent(p) == Prefix(p, Len(p) - 1)
Ancestors(p) == {Prefix(p, n) : n \in 0..(Len(p) - 1)}
Under(p, q) == Len(q) > Len(p) /\ Prefix(q, Len(p)) = p

Fresh == [dirs |-> {<<>>}, names |-> <<>>, data |-> <<>>, hs |-> <<>>]
Files(s) == DOMAIN s.names
Nodes(s) == s.dirs \cup Files(s)
IsD(s, p) == p \in s.dirs
IsF(s, p) == p \in Files(s)
Is(s, p) == p \in Nodes(s)
\* below a file nothing can be looked up
Blocked(s, p) == Ancestors(p) \cap Files(s) # {}
Children(s, p) == {q \in Nodes(s) : Len(q) = Len(p) + 1 /\ Under(p, q)}
Bytes(s, f) == s.data[f].vis
All(s, f) == s.data[f].vis \o s.data[f].pend

WithFile(s, p, b) == LET f == Len(s.data) + 1 IN
    [s EXCEPT !.data = Append(@, [vis |-> b, pend |-> <<>>]),
              !.names = [q \in Files(s) \cup {p} |-> IF q = p THEN f ELSE s.names[q]]]
Without(s, P) == [s EXCEPT !.dirs = @ \ P, !.names = [q \in Files(s) \ P |-> s.names[q]]]
WithDirs(s, p) == [s EXCEPT !.dirs = @ \cup Ancestors(p) \cup {p}]
Truncate(s, p) == [s EXCEPT !.data[s.names[p]] = [vis |-> <<>>, pend |-> <<>>]]
Move(s, p, q) == LET At(x) == IF x = q \/ Under(q, x) THEN p \o SubSeq(x, Len(q) + 1, Len(x)) ELSE x IN
    [s EXCEPT !.dirs = {IF x = p \/ Under(p, x) THEN q \o SubSeq(x, Len(p) + 1, Len(x)) ELSE x : x \in s.dirs},
              !.names = [x \in {IF y = p \/ Under(p, y) THEN q \o SubSeq(y, Len(p) + 1, Len(y)) ELSE y : y \in Files(s)} |->
                            s.names[At(x)]]]

Res(ok, s) == [ok |-> ok, s |-> s]
MkdirsRes(s, p) == IF Blocked(s, p) \/ IsF(s, p) THEN Res(FALSE, s) ELSE Res(TRUE, WithDirs(s, p))
PutRes(s, p, b, over) ==
    IF Blocked(s, p) \/ IsD(s, p) \/ (IsF(s, p) /\ ~over) \/ p = <<>> THEN Res(FALSE, s)
    ELSE IF IsF(s, p) THEN Res(TRUE, [Truncate(s, p) EXCEPT !.data[s.names[p]].vis = b])
    ELSE Res(TRUE, WithFile(WithDirs(s, Parent(p)), p, b))
DeleteRes(s, p, rec) ==
    IF ~Is(s, p) \/ (IsD(s, p) /\ ~rec /\ Children(s, p) # {}) THEN Res(FALSE, s)
    ELSE Res(TRUE, Without(s, {q \in Nodes(s) : q = p \/ Under(p, q)}))
RenameRes(s, p, q, slash) ==
    IF ~Is(s, p) \/ Blocked(s, q) \/ Is(s, q) \/ Under(p, q) \/ (slash /\ IsF(s, p)) THEN Res(FALSE, s)
    ELSE Res(TRUE, Move(WithDirs(s, Parent(q)), p, q))
\* the operations that change names, as one step each
Change(s, o) == CASE o.k = "mkdirs" -> MkdirsRes(s, o.p)
                  [] o.k = "put" -> PutRes(s, o.p, o.b, o.over)
                  [] o.k = "store" -> PutRes(s, o.p, o.b, FALSE)
                  [] o.k = "delete" -> DeleteRes(s, o.p, o.rec)
                  [] o.k = "rename" -> RenameRes(s, o.p, o.q, o.slash)
                  [] OTHER -> Res(FALSE, s)
\* what a dump shows
Shown(s) == {[p |-> p, d |-> TRUE, b |-> <<>>] : p \in s.dirs}
            \cup {[p |-> p, d |-> FALSE, b |-> Bytes(s, s.names[p])] : p \in Files(s)}
\* operations at the same time have the effect of some order
RECURSIVE InSomeOrder(_, _, _, _)
InSomeOrder(s, ops, left, shown) ==
    IF left = {} THEN Shown(s) = shown
    ELSE \E k \in left : LET r == Change(s, ops[k]) IN
             /\ r.ok = ops[k].ok
             /\ InSomeOrder(r.s, ops, left \ {k}, shown)

-----------------------------------------------------------------------------
(* The invariants of the tree.                                              *)
Tree(s) == /\ <<>> \in s.dirs
           /\ \A p \in Nodes(s) : p = <<>> \/ Parent(p) \in s.dirs
           /\ s.dirs \cap Files(s) = {}
           /\ \A p, q \in Files(s) : s.names[p] = s.names[q] => p = q
=============================================================================
