------------------------------ MODULE DelVec ------------------------------
\* A deletion vector is a set of row positions; positions above Top are refused.
EXTENDS Integers, Sequences, FiniteSets
Top == 2147483647
Elems(s) == {s[j] : j \in DOMAIN s}
\* the rows of a batch of n rows that begins at position first that are still there
Valid(del, first, n) == {j \in 0..(n - 1) : (first + j) \notin del}
FromFlags(flags) == {j - 1 : j \in {m \in DOMAIN flags : flags[m] = 1}}
=============================================================================
