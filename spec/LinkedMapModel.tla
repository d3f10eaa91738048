---------------------------- MODULE LinkedMapModel ----------------------------
(* The algorithm: nodes linked in a list, and an index from key to node.  It     *)
(* represents the abstract map after every operation.                            *)
EXTENDS LinkedMap, FiniteSets, TLC
CONSTANTS Key, Value, MaxNode

VARIABLES node,   \* node id -> <<key, value, prev, next>>, 0 is the sentinel
          index,  \* key -> node id
          free,   \* next unused node id
          abs     \* the abstract map
vars == <<node, index, free, abs>>

Init == node = (0 :> <<-1, -1, 0, 0>>) /\ index = <<>> /\ free = 1 /\ abs = <<>>

Add(k, v) ==
  LET last == node[0][3]
      fresh == (free :> <<k, v, last, 0>>)
      n1 == fresh @@ node
      n2 == [n1 EXCEPT ![last][4] = free]
      n3 == [n2 EXCEPT ![0][3] = free]
  IN node' = n3 /\ index' = (k :> free) @@ index /\ free' = free + 1

DoInsert(k, v) ==
  /\ free <= MaxNode
  /\ IF k \in DOMAIN index THEN UNCHANGED <<node, index, free>> ELSE Add(k, v)
  /\ abs' = Insert(abs, k, v)

DoAssign(k, v) ==
  /\ free <= MaxNode
  /\ IF k \in DOMAIN index THEN node' = [node EXCEPT ![index[k]][2] = v] /\ UNCHANGED <<index, free>>
                           ELSE Add(k, v)
  /\ abs' = Assign(abs, k, v)

DoErase(k) ==
  /\ IF k \in DOMAIN index
     THEN LET n == index[k]
              p == node[n][3]
              q == node[n][4]
              a == [node EXCEPT ![p][4] = q]
              b == [a EXCEPT ![q][3] = p]
          IN /\ node' = [x \in DOMAIN node \ {n} |-> b[x]]
             /\ index' = [x \in DOMAIN index \ {k} |-> index[x]]
     ELSE UNCHANGED <<node, index>>
  /\ abs' = Erase(abs, k) /\ UNCHANGED free

Next == \/ \E k \in Key, v \in Value : DoInsert(k, v) \/ DoAssign(k, v)
        \/ \E k \in Key : DoErase(k)
Spec == Init /\ [][Next]_vars

RECURSIVE Walk(_)
Walk(n) == IF n = 0 THEN <<>> ELSE <<<<node[n][1], node[n][2]>>>> \o Walk(node[n][4])

Represents == Walk(node[0][4]) = abs
InStep == /\ DOMAIN index = KeysOf(abs)
          /\ \A k \in DOMAIN index : node[index[k]][1] = k /\ node[index[k]][2] = Lookup(abs, k)
NoLeak == Cardinality(DOMAIN node) = Len(abs) + 1
Sound == Represents /\ InStep /\ NoLeak /\ Distinct(abs)
=============================================================================
