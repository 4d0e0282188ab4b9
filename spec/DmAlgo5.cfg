SPECIFICATION Spec
CONSTANTS
 N = 4
 M = 3
 NotMaximum = FALSE
 OneHop = FALSE
 SameGraph = FALSE
 NoReset = FALSE
 CollectLate = FALSE
INVARIANTS Safe Perms Blocks Aligned Triangular
PROPERTY Terminates
