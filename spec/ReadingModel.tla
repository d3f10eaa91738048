---------------------------- MODULE ReadingModel ----------------------------
\* Skipping files by their statistics and evaluating predicates in steps must not
\* change what is read.  A file keeps, for each of its fields, the smallest and the
\* largest value and the number of nulls; files written before a field existed count
\* as holding only nulls.  In a primary-key table only the conditions on the key skip
\* single files; the others may skip a bucket as a whole, or single files when no key
\* is in two of them.
EXTENDS Reading
CONSTANTS Engines, MaxFiles, MaxRows, MaxAlters, PerFile
Values == {0, 1}
Maybe == {<<>>} \cup {<<v>> : v \in Values}
K == 1  \* the key field
VARIABLES t, last
vars == <<t, last>>
NoPred == [t |-> "all", f |-> 0, op |-> "", v |-> <<>>, c |-> <<>>]
L(f, op, v) == [NoPred EXCEPT !.t = "leaf", !.f = f, !.op = op, !.v = v]
Comb(kind, c) == [NoPred EXCEPT !.t = kind, !.c = c]
Unary == {"isnull", "notnull"}
Single == {"eq", "ne", "lt", "le", "gt", "ge"}
Leaves(F) == {L(f, op, <<>>) : f \in F, op \in Unary} \cup {L(f, op, <<v>>) : f \in F, op \in Single, v \in Values}
             \cup {L(f, op, <<0, 1>>) : f \in F, op \in {"in", "notin", "between"}} \cup {L(f, op, <<1>>) : f \in F, op \in {"in", "notin"}}
             \cup {L(f, "between", <<1, 0>>) : f \in F}
Some(F) == {L(f, op, <<1>>) : f \in F, op \in {"eq", "ne", "lt"}} \cup {L(f, "isnull", <<>>) : f \in F}
Preds(F) == Leaves(F) \cup {Comb("not", <<a>>) : a \in Leaves(F)}
            \cup {Comb(k, <<a, b>>) : k \in {"and", "or"}, a \in Some(F), b \in Some(F)}
            \cup {Comb("not", <<Comb(k, <<a, b>>)>>) : k \in {"and", "or"}, a \in Some(F), b \in Some(F)}
\* ---- negation pushed to the leaves
Flip == [isnull |-> "notnull", notnull |-> "isnull", eq |-> "ne", ne |-> "eq", lt |-> "ge", ge |-> "lt", gt |-> "le", le |-> "gt",
         in |-> "notin", notin |-> "in"]
RECURSIVE Plain(_)
RECURSIVE Neg(_)
Neg(p) == CASE p.t = "leaf" /\ p.op = "between" -> Comb("or", <<L(p.f, "lt", <<p.v[1]>>), L(p.f, "gt", <<p.v[2]>>)>>)
            [] p.t = "leaf" -> [p EXCEPT !.op = Flip[p.op]]
            [] p.t = "and" -> Comb("or", [j \in DOMAIN p.c |-> Neg(p.c[j])])
            [] p.t = "or" -> Comb("and", [j \in DOMAIN p.c |-> Neg(p.c[j])])
            [] p.t = "not" -> Plain(p.c[1])
Plain(p) == CASE p.t = "not" -> Neg(p.c[1])
              [] p.t \in {"and", "or"} -> Comb(p.t, [j \in DOMAIN p.c |-> Plain(p.c[j])])
              [] OTHER -> p
\* ---- statistics
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Stats(file, f) ==
  LET V == {Get(file.rows[j], f)[1] : j \in {m \in DOMAIN file.rows : Get(file.rows[m], f) # <<>>}} IN
  [n |-> Len(file.rows), nulls |-> Cardinality({j \in DOMAIN file.rows : Get(file.rows[j], f) = <<>>}),
   lo |-> IF V = {} THEN 0 ELSE Min(V), hi |-> IF V = {} THEN 0 ELSE Max(V)]
MayLeaf(op, v, s) ==
  CASE op = "isnull" -> s.nulls > 0
    [] op = "notnull" -> s.nulls < s.n
    [] s.nulls = s.n -> FALSE
    [] op = "eq" -> s.lo <= v[1] /\ v[1] <= s.hi
    [] op = "ne" -> ~(s.lo = v[1] /\ s.hi = v[1])
    [] op = "lt" -> s.lo < v[1]
    [] op = "le" -> s.lo <= v[1]
    [] op = "gt" -> s.hi > v[1]
    [] op = "ge" -> s.hi >= v[1]
    [] op = "in" -> \E x \in Range(v) : s.lo <= x /\ x <= s.hi
    [] op = "notin" -> \A x \in Range(v) : ~(s.lo = x /\ s.hi = x)
    [] op = "between" -> s.lo <= v[2] /\ v[1] <= s.hi
RECURSIVE May(_, _)
May(file, p) == CASE p.t = "all" -> TRUE
                  [] p.t = "leaf" -> MayLeaf(p.op, p.v, Stats(file, p.f))
                  [] p.t = "and" -> \A c \in Range(p.c) : May(file, c)
                  [] p.t = "or" -> \E c \in Range(p.c) : May(file, c)
\* the conditions that speak of the key only
RECURSIVE Conj(_)
Conj(p) == IF p.t = "and" THEN UNION {Conj(c) : c \in Range(p.c)} ELSE {p}
OnKey(p) == {c \in Conj(p) : FieldsOf(c) \subseteq {K}}
Apart(N) == \A a, b \in N : a = b \/ (\A j \in DOMAIN t.files[a].rows, m \in DOMAIN t.files[b].rows :
                                         t.files[a].rows[j][K] # t.files[b].rows[m][K])
Selected(p) ==
  IF ~t.pk THEN {n \in DOMAIN t.files : May(t.files[n], p)}
  ELSE LET A == {n \in DOMAIN t.files : \A c \in OnKey(p) : May(t.files[n], c)}
           bucket(b) == {n \in A : t.files[n].b = b}
           kept(b) == IF PerFile \/ Apart(bucket(b)) THEN {n \in bucket(b) : May(t.files[n], p)}
                      ELSE IF t.engine = "partial-update" \/ (\E n \in bucket(b) : May(t.files[n], p)) THEN bucket(b) ELSE {}
       IN kept(0) \cup kept(1)
\* ---- the table
Init == t \in {[pk |-> k, engine |-> g, key |-> K, pids |-> <<>>, fields |-> <<1, 2>>, files |-> <<>>] : k \in BOOLEAN, g \in Engines} /\ last = 2
Write == /\ Len(t.files) < MaxFiles
         /\ \E n \in 1..MaxRows : \E rows \in [1..n -> {f \in [Range(t.fields) -> Maybe] : f[K] # <<>>}] :
              t' = [t EXCEPT !.files = Append(@, [p |-> <<>>, b |-> 0, rows |-> Stored(t, rows), del |-> {}])]
         /\ UNCHANGED last
Hide == \E n \in DOMAIN t.files : \E j \in Shown(t.files[n]) : t' = [t EXCEPT !.files[n].del = @ \cup {j}] /\ UNCHANGED last
\* one field is replaced by a new one
Alter == /\ last < 2 + MaxAlters
         /\ \E j \in 2..Len(t.fields) : t' = [t EXCEPT !.fields[j] = last + 1]
         /\ last' = last + 1
Next == Write \/ Hide \/ Alter
Spec == Init /\ [][Next]_vars
\* the predicates with their negations pushed down
Known == [x \in 2..(2 + MaxAlters) |-> {<<p, Plain(p)>> : p \in Preds({K, x})}]
SkippingIsInvisible ==
  LET now == TLCEval([N \in SUBSET DOMAIN t.files |-> Current(t, N)])
      all == DOMAIN t.files
      res(N, p) == {View(t, N, q) : q \in {r \in now[N] : Holds(View(t, N, r), p)}}
      one(N, p) == {q \in now[N] : Holds(At(t, q), p)}
      plain == ~t.pk \/ t.engine = "deduplicate"
  IN \A p \in Known[t.fields[2]] : LET N == Selected(p[2]) IN 
       N = all \/ IF plain THEN one(N, p[1]) = one(all, p[1]) ELSE res(N, p[1]) = res(all, p[1])
Row(k, v) == (K :> k) @@ (2 :> v)
NegationKeepsMeaning == \A p \in Known[2] : \A k \in Maybe, v \in Maybe : Eval(Row(k, v), p[1]) = Eval(Row(k, v), p[2])
ASSUME NegationKeepsMeaning
OneRowPerKey == t.pk => \A q, r \in Current(t, DOMAIN t.files) : At(t, q)[K] = At(t, r)[K] => q = r
=============================================================================
