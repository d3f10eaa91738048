-------------------------- MODULE GlobalIndexTrace --------------------------
EXTENDS Trace, GlobalIndex
Start(init) == <<>>
Set(q) == Range(q)
Foreign(R) == [kind |-> "foreign", rows |-> R, score |-> NoScore]
AsPlain(x) == IF x.kind = "foreign" THEN Plain(x.rows) ELSE x
New(s, e) ==
  CASE e.op = "plain" -> Plain(Set(e.rows))
    [] e.op = "scored" -> Scored([r \in Set(e.rows) |-> e.sc[CHOOSE k \in DOMAIN e.rows : e.rows[k] = r]])
    [] e.op = "ranges" -> Plain(UNION {e.rs[k][1]..e.rs[k][2] : k \in DOMAIN e.rs})
    [] e.op = "foreign" -> Foreign(Set(e.rows))
    [] e.op = "and" -> \* a foreign operand has no scores to preserve but may drop the other's
         LET a == s[e.a] b == s[e.b] IN
         IF a.kind = "foreign" \/ b.kind = "foreign" THEN Plain(a.rows \cap b.rows)
         \* which side asks decides whether scores are kept when only one side has them
         ELSE IF a.kind = "plain" /\ b.kind = "scored" /\ e.o = "ok" /\ e.scored THEN Conj(b, a)
         ELSE Conj(a, b)
    [] e.op = "or" -> LET a == s[e.a] b == s[e.b] IN
         IF a.kind = "foreign" \/ b.kind = "foreign" THEN Plain(a.rows \cup b.rows) ELSE Disj(a, b)
    [] e.op = "shift" -> Shift(s[e.a], e.off)
    [] e.op = "saveload" -> IF s[e.a].kind = "scored" /\ s[e.a].rows = {} THEN Plain({}) ELSE s[e.a]

Good(s, e) ==
  CASE e.op \in {"plain", "scored", "ranges", "foreign"} -> e.o = "ok"
    [] e.op \in {"and", "or"} ->
         IF New(s, e).kind = "err" THEN e.o = "err"
         ELSE e.o = "ok" /\ (e.scored = (New(s, e).kind = "scored"))
    [] e.op = "shift" -> e.o = IF s[e.a].kind = "foreign" THEN "err" ELSE "ok"
    [] e.op = "saveload" -> IF s[e.a].kind = "foreign" THEN e.o = "err" ELSE e.o = "ok" /\ e.refused
    [] e.op = "show" ->
         LET x == s[e.a] IN
         /\ e.o = "ok"
         /\ e.empty = (x.rows = {})
         /\ e.text
         /\ x.kind # "foreign" =>
              /\ e.it = Sorted(x.rows)
              /\ e.ranges = Runs(x.rows)
              /\ x.kind = "scored" => e.kind = "scored" /\ e.sc = [k \in DOMAIN e.it |-> x.score[e.it[k]]]
              /\ x.kind = "plain" => e.kind = "plain" \/ x.rows = {}
    [] OTHER -> FALSE
Step(s, e) == IF e.op = "show" \/ e.o # "ok" THEN s ELSE Append(s, New(s, e))

Init == tid \in 1..NT /\ i = 1 /\ st = Start(Traces[tid].init) /\ bad = FALSE
Next == /\ ~bad /\ i <= Len(Events(tid))
        /\ LET e == Events(tid)[i] IN
             IF Good(st, e) THEN bad' = FALSE /\ st' = Step(st, e) ELSE bad' = TRUE /\ st' = st
        /\ i' = i + 1 /\ UNCHANGED tid
=============================================================================
