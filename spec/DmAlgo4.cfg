SPECIFICATION Spec
CONSTANTS
 N = 3
 M = 4
 NotMaximum = FALSE
 OneHop = FALSE
 SameGraph = FALSE
 NoReset = FALSE
 CollectLate = FALSE
INVARIANTS Safe Perms Blocks Aligned Triangular
PROPERTY Terminates
