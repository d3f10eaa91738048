---------------------------- MODULE CommitModel ----------------------------
(* How commits, expiration and orphan cleaning work step by step: a         *)
(* committer looks for the newest snapshot with the help of a hint that may *)
(* say anything, writes its files, and publishes by creating the file of    *)
(* the next snapshot if it does not exist yet.  Any step may be the last    *)
(* one of a process, or may report an error; a committer that does not know *)
(* the outcome submits its commit again under the same identifier.          *)
(* An expiration deletes the files of the old snapshots before the          *)
(* snapshots themselves; a cleaning lists files first and looks at the      *)
(* snapshots afterwards.                                                    *)
EXTENDS Integers, FiniteSets

CONSTANTS Procs,      \* committers
          NUnits,     \* commits of each
          MaxFaults,  \* crashes and errors
          MaxTries,   \* attempts of one call
          Expiring, Cleaning,
          Atomic      \* FALSE: look whether the name is free, then replace it

VARIABLES snaps,      \* id -> [units, mans, refs, user, ident]; units: seq-free set of <<p, k>>
          files, pc, unit, sure, base, guess, tries, over,
          told,       \* units reported as committed
          lost,       \* units reported as not committed, for good
          faults, gone,  \* ids removed by expiration
          ex, cl
vars == <<snaps, files, pc, unit, sure, base, guess, tries, over, told, lost, faults, gone, ex, cl>>

Ids == DOMAIN snaps
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : y >= x
Last == IF Ids = {} THEN 0 ELSE MaxOf(Ids)
\* every attempt uses new names
Data(u) == <<"data", u[1], u[2], 0, 0>>
Man(p) == <<"man", p, unit[p], base[p], faults[p]>>
Content(id) == IF id = 0 THEN {} ELSE snaps[id].units
Mans(id) == IF id = 0 THEN {} ELSE snaps[id].mans
Doomed == IF ex.pc = "idle" THEN {} ELSE ex.ids
RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET p == CHOOSE x \in S : TRUE IN faults[p] + Sum(S \ {p})
Failed == Sum(Procs)
Busy == {"guess", "look", "write", "publish", "after", "tidy"}

Init == /\ snaps = <<>> /\ files = {}
        /\ pc = [p \in Procs |-> "idle"] /\ unit = [p \in Procs |-> 1]
        /\ sure = [p \in Procs |-> TRUE] /\ base = [p \in Procs |-> 0]
        /\ guess = [p \in Procs |-> 0] /\ tries = [p \in Procs |-> 0]
        /\ over = [p \in Procs |-> FALSE]
        /\ told = {} /\ lost = {} /\ faults = [p \in Procs |-> 0] /\ gone = {}
        /\ ex = [pc |-> "idle", ids |-> {}, end |-> 0] /\ cl = [pc |-> "idle", list |-> {}]

Put(f, p, v) == f' = [f EXCEPT ![p] = v]

\* data files are written, then the commit is called
Begin(p) == /\ pc[p] = "idle" /\ unit[p] <= NUnits
            /\ files' = files \cup {Data(<<p, unit[p]>>)}
            /\ IF sure[p] THEN \E o \in BOOLEAN : Put(over, p, o) ELSE UNCHANGED over
            /\ Put(pc, p, "guess") /\ Put(tries, p, 0)
            /\ UNCHANGED <<snaps, unit, sure, base, guess, told, lost, faults, gone, ex, cl>>
\* the hint may say anything; it is believed only if that snapshot exists ...
Guess(p) == /\ pc[p] = "guess"
            /\ \E h \in 0..(Last + 1) : Put(guess, p, IF h \in Ids \ Doomed THEN h ELSE 0)
            /\ Put(pc, p, "look")
            /\ UNCHANGED <<snaps, files, unit, sure, base, tries, over, told, lost, faults, gone, ex, cl>>
\* ... and the next one does not
Look(p) == /\ pc[p] = "look"
           /\ LET b == IF guess[p] # 0 /\ guess[p] + 1 \notin Ids THEN guess[p] ELSE Last
                  mine == {id \in Ids : id <= b /\ snaps[id].user = p}
                  applied == ~sure[p] /\ mine # {} /\ snaps[MaxOf(mine)].ident >= unit[p]
              IN /\ Put(base, p, b)
                 /\ IF applied
                    THEN /\ told' = told \cup {<<p, unit[p]>>} /\ Put(unit, p, unit[p] + 1)
                         /\ Put(sure, p, TRUE) /\ Put(pc, p, "idle")
                    ELSE Put(pc, p, "write") /\ UNCHANGED <<told, unit, sure>>
           /\ UNCHANGED <<snaps, files, guess, tries, over, lost, faults, gone, ex, cl>>
Write(p) == /\ pc[p] = "write"
            /\ files' = files \cup {Man(p)}
            /\ Put(pc, p, IF Atomic THEN "publish" ELSE "free")
            /\ UNCHANGED <<snaps, unit, sure, base, guess, tries, over, told, lost, faults, gone, ex, cl>>
\* the flawed variant: the check is a step of its own
Free(p) == /\ pc[p] = "free"
           /\ Put(pc, p, IF base[p] + 1 \in Ids THEN "tidy" ELSE "publish")
           /\ UNCHANGED <<snaps, files, unit, sure, base, guess, tries, over, told, lost, faults, gone, ex, cl>>
New(p, merged) ==
    LET u == <<p, unit[p]>>
        us == (IF over[p] THEN {} ELSE Content(base[p])) \cup {u}
        ms == (IF over[p] \/ merged THEN {} ELSE Mans(base[p])) \cup {Man(p)}
    IN [units |-> us, mans |-> ms, refs |-> ms \cup {Data(x) : x \in us}, user |-> p, ident |-> unit[p]]
Publish(p) ==
    /\ pc[p] = "publish"
    /\ IF Atomic /\ base[p] + 1 \in Ids
       THEN Put(pc, p, "tidy") /\ UNCHANGED snaps
       ELSE /\ \E merged \in BOOLEAN :
                 snaps' = [id \in Ids \cup {base[p] + 1} |-> IF id = base[p] + 1 THEN New(p, merged) ELSE snaps[id]]
            /\ Put(pc, p, "after")
    /\ UNCHANGED <<files, unit, sure, base, guess, tries, over, told, lost, faults, gone, ex, cl>>
\* the hint is written (its content is arbitrary anyway) and success reported
After(p) == /\ pc[p] = "after"
            /\ told' = told \cup {<<p, unit[p]>>} /\ Put(unit, p, unit[p] + 1) /\ Put(sure, p, TRUE)
            /\ Put(pc, p, "idle")
            /\ UNCHANGED <<snaps, files, base, guess, tries, over, lost, faults, gone, ex, cl>>
\* somebody was faster: own metadata is removed; again, or report the loss
Tidy(p) == /\ pc[p] = "tidy"
           /\ files' = files \ {Man(p)}
           /\ Put(tries, p, tries[p] + 1)
           /\ IF tries[p] + 1 < MaxTries THEN Put(pc, p, "guess") /\ UNCHANGED <<lost, unit, sure>>
              ELSE /\ Put(pc, p, "idle")
                   /\ \/ Put(sure, p, FALSE) /\ UNCHANGED <<lost, unit>>      \* submitted again later
                      \/ /\ sure[p] /\ lost' = lost \cup {<<p, unit[p]>>}
                         /\ Put(unit, p, unit[p] + 1) /\ UNCHANGED sure       \* given up
           /\ UNCHANGED <<snaps, base, guess, over, told, faults, gone, ex, cl>>
\* an error or a crash: what had been published stays, nothing more is known
Fail(p) == /\ Failed < MaxFaults /\ pc[p] \in Busy
           /\ Put(faults, p, faults[p] + 1) /\ Put(pc, p, "idle") /\ Put(sure, p, FALSE)
           /\ \/ UNCHANGED files
              \/ pc[p] \in {"write", "publish", "tidy"} /\ files' = files \ {Man(p)}   \* tidied up before
           /\ UNCHANGED <<snaps, unit, base, guess, tries, over, told, lost, gone, ex, cl>>

-----------------------------------------------------------------------------
(* Assumed: an expiration leaves the snapshots that running commits build   *)
(* on, and the newest one of a user who does not know an outcome yet.       *)
Held == {base[p] : p \in {q \in Procs : pc[q] \in Busy}} \cup {guess[p] : p \in {q \in Procs : pc[q] \in Busy}}
Floor == MinOf(Held \cup {Last}
               \cup {MaxOf({id \in Ids : snaps[id].user = p} \cup {0}) : p \in {q \in Procs : ~sure[q] \/ pc[q] # "idle"}})
ExBegin == /\ Expiring /\ ex.pc = "idle" /\ Ids # {}
           /\ \E end \in Ids : /\ MinOf(Ids) < end /\ end <= Floor
                               /\ ex' = [pc |-> "data", ids |-> {id \in Ids : id < end}, end |-> end]
           /\ UNCHANGED <<snaps, files, pc, unit, sure, base, guess, tries, over, told, lost, faults, gone, cl>>
Dead == UNION {snaps[id].refs : id \in ex.ids \cap Ids} \ snaps[ex.end].refs
ExData == /\ ex.pc = "data"
          /\ files' = files \ {f \in Dead : f[1] = "data"}
          /\ ex' = [ex EXCEPT !.pc = "mans"]
          /\ UNCHANGED <<snaps, pc, unit, sure, base, guess, tries, over, told, lost, faults, gone, cl>>
ExMans == /\ ex.pc = "mans" /\ ex.ids # {}
          /\ LET id == MinOf(ex.ids) IN
             /\ files' = files \ (snaps[id].mans \ snaps[ex.end].mans)
             /\ snaps' = [x \in Ids \ {id} |-> snaps[x]]
             /\ gone' = gone \cup {id} /\ ex' = [ex EXCEPT !.ids = @ \ {id}]
          /\ UNCHANGED <<pc, unit, sure, base, guess, tries, over, told, lost, faults, cl>>
ExEnd == /\ ex.pc = "mans" /\ ex.ids = {}
         /\ ex' = [pc |-> "idle", ids |-> {}, end |-> 0]
         /\ UNCHANGED <<snaps, files, pc, unit, sure, base, guess, tries, over, told, lost, faults, gone, cl>>

-----------------------------------------------------------------------------
(* Files of running calls, and data waiting to be submitted again, are      *)
(* younger than the threshold of the cleaning.                              *)
Young == {Man(p) : p \in {q \in Procs : pc[q] \in Busy}}
         \cup {Data(<<p, unit[p]>>) : p \in {q \in Procs : unit[q] <= NUnits}}
ClList == /\ Cleaning /\ cl.pc = "idle" /\ files # {}
          /\ cl' = [pc |-> "used", list |-> files \ Young]
          /\ UNCHANGED <<snaps, files, pc, unit, sure, base, guess, tries, over, told, lost, faults, gone, ex>>
ClUsed == /\ cl.pc = "used"
          /\ cl' = [pc |-> "delete", list |-> cl.list \ UNION {snaps[id].refs : id \in Ids}]
          /\ UNCHANGED <<snaps, files, pc, unit, sure, base, guess, tries, over, told, lost, faults, gone, ex>>
ClDelete == /\ cl.pc = "delete"
            /\ files' = files \ cl.list /\ cl' = [pc |-> "idle", list |-> {}]
            /\ UNCHANGED <<snaps, pc, unit, sure, base, guess, tries, over, told, lost, faults, gone, ex>>

Next == \/ \E p \in Procs : Begin(p) \/ Guess(p) \/ Look(p) \/ Write(p) \/ Free(p) \/ Publish(p) \/ After(p) \/ Tidy(p) \/ Fail(p)
        \/ ExBegin \/ ExData \/ ExMans \/ ExEnd \/ ClList \/ ClUsed \/ ClDelete

-----------------------------------------------------------------------------
\* ids are consecutive: removed ones come first
Consecutive == Ids \cup gone = 1..Last /\ \A g \in gone : \A id \in Ids : g < id
\* a retained snapshot can be read
Readable == \A id \in Ids \ Doomed : snaps[id].refs \subseteq files
\* one snapshot per unit
Once == \A a, b \in Ids : snaps[a].user = snaps[b].user /\ snaps[a].ident = snaps[b].ident => a = b
\* what was reported as done is in the history, what was given up is not
Told == \A u \in told : \/ \E id \in Ids : snaps[id].user = u[1] /\ snaps[id].ident = u[2]
                        \/ gone # {}
Lost == \A u \in lost : \A id \in Ids : u \notin snaps[id].units
\* identifiers of a user appear in order
Ordered == \A a, b \in Ids : a < b /\ snaps[a].user = snaps[b].user => snaps[a].ident < snaps[b].ident
\* a snapshot is never changed, and holds the previous one's units or only its own
Immutable == [][\A id \in Ids \cap DOMAIN snaps' : snaps'[id] = snaps[id]]_vars
Grows == \A id \in Ids : LET own == <<snaps[id].user, snaps[id].ident>> IN
             \/ snaps[id].units = {own}
             \/ id - 1 \in Ids /\ snaps[id].units = snaps[id - 1].units \cup {own}
             \/ id - 1 \in gone /\ own \in snaps[id].units
NewestIsNew == [][Last' >= Last /\ (\A id \in DOMAIN snaps' : id \in Ids \/ id = Last + 1)]_vars
=============================================================================
