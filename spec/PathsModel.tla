---------------------------- MODULE PathsModel ----------------------------
EXTENDS Paths
CONSTANT N
VARIABLE x
Init == x = 0
Next == UNCHANGED x
Good == Laws({SL, CO, 97}, N)
=============================================================================
