---------------------------- MODULE ResolveModel ----------------------------
(* The cache of instances: look under the shared lock, then look again and  *)
(* make the instance under the exclusive lock.  Every history is one the    *)
(* specification allows; without the second look it is not.                 *)
EXTENDS Resolve
CONSTANTS Threads, Keys, Calls, Again

VARIABLES pc, want, found, cache, readers, writer, s, n, left, good
vars == <<pc, want, found, cache, readers, writer, s, n, left, good>>
Conf == [map |-> ("file" :> "local" @@ "x" :> "bad"), default |-> "dfs", works |-> {"local", "dfs"}]
Init == /\ pc = [t \in Threads |-> "idle"] /\ want = [t \in Threads |-> <<"", "">>] /\ found = [t \in Threads |-> 0]
        /\ cache = <<>> /\ readers = {} /\ writer = 0 /\ s = [inst |-> <<>>, call |-> <<>>] /\ n = 0
        /\ left = [t \in Threads |-> Calls] /\ good = TRUE
U(k) == [scheme |-> k[1], auth |-> k[2]]
Start(t) == /\ pc[t] = "idle" /\ left[t] > 0 /\ left' = [left EXCEPT ![t] = @ - 1]
            /\ \E k \in Keys : want' = [want EXCEPT ![t] = k] /\ s' = Begin(s, t, "exists", U(k), <<>>)
            /\ pc' = [pc EXCEPT ![t] = "look"] /\ UNCHANGED <<found, cache, readers, writer, n, good>>
RLock(t) == /\ pc[t] = "look" /\ writer = 0 /\ readers' = readers \cup {t} /\ pc' = [pc EXCEPT ![t] = "read"]
            /\ UNCHANGED <<want, found, cache, writer, s, n, left, good>>
Read(t) == /\ pc[t] = "read" /\ readers' = readers \ {t}
           /\ IF want[t] \in DOMAIN cache THEN found' = [found EXCEPT ![t] = cache[want[t]]] /\ pc' = [pc EXCEPT ![t] = "pass"]
              ELSE pc' = [pc EXCEPT ![t] = "miss"] /\ UNCHANGED found
           /\ UNCHANGED <<want, cache, writer, s, n, left, good>>
WLock(t) == /\ pc[t] = "miss" /\ writer = 0 /\ readers = {} /\ writer' = t
            /\ IF Again /\ want[t] \in DOMAIN cache
               THEN found' = [found EXCEPT ![t] = cache[want[t]]] /\ pc' = [pc EXCEPT ![t] = "free"]
               ELSE pc' = [pc EXCEPT ![t] = "make"] /\ UNCHANGED found
            /\ UNCHANGED <<want, cache, readers, s, n, left, good>>
MakeIt(t) == /\ pc[t] = "make"
             /\ LET id == Factory(Conf, want[t][1]) ok == id \in Conf.works IN
                /\ good' = (good /\ (MayMake(Conf, s, t, id, want[t])))
                /\ s' = Make(s, t, want[t], n + 1, ok)
                /\ IF ok THEN /\ n' = n + 1 /\ found' = [found EXCEPT ![t] = n + 1]
                              /\ cache' = (want[t] :> (n + 1)) @@ cache
                              /\ pc' = [pc EXCEPT ![t] = "free"]
                   ELSE pc' = [pc EXCEPT ![t] = "fail"] /\ UNCHANGED <<n, found, cache>>
             /\ UNCHANGED <<want, readers, writer, left>>
Free(t) == /\ pc[t] \in {"free", "fail"} /\ writer' = 0
           /\ pc' = [pc EXCEPT ![t] = IF pc[t] = "free" THEN "pass" ELSE "error"]
           /\ UNCHANGED <<want, found, cache, readers, s, n, left, good>>
PassIt(t) == /\ pc[t] = "pass" /\ good' = (good /\ MayPass(s, t, found[t], "exists", <<>>))
             /\ s' = Pass(s, t, [ok |-> TRUE]) /\ pc' = [pc EXCEPT ![t] = "back"]
             /\ UNCHANGED <<want, found, cache, readers, writer, n, left>>
Back(t) == /\ pc[t] \in {"back", "error"}
           /\ good' = (good /\ MayReturn(Conf, s, t, [ok |-> pc[t] = "back"]))
           /\ s' = Return(s, t) /\ pc' = [pc EXCEPT ![t] = "idle"]
           /\ UNCHANGED <<want, found, cache, readers, writer, n, left>>
Next == \E t \in Threads : Start(t) \/ RLock(t) \/ Read(t) \/ WLock(t) \/ MakeIt(t) \/ Free(t) \/ PassIt(t) \/ Back(t)
Allowed == good
Exclusive == writer # 0 => readers = {}
\* no deadlock: some thread can go on unless all are at rest with nothing left
Live == (\A t \in Threads : pc[t] = "idle" /\ left[t] = 0) \/ ENABLED Next
MCKeys == {<<"", "">>, <<"file", "">>, <<"hdfs", "a">>, <<"x", "">>}
=============================================================================
