SPECIFICATION Spec
CONSTANTS
 N = 2
 M = 4
 NotMaximum = FALSE
 OneHop = FALSE
 SameGraph = FALSE
 NoReset = FALSE
 CollectLate = FALSE
INVARIANTS Safe Perms Blocks Aligned Triangular
PROPERTY Terminates
