SPECIFICATION Spec
INVARIANT Okay
PROPERTY Ends
CONSTANTS Workers = {w1, w2}
 Tasks = {1, 2, 3}
 Nested = 9
 Parent = 1
