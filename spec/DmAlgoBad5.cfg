SPECIFICATION Spec
CONSTANTS
 N = 3
 M = 3
 NotMaximum = FALSE
 OneHop = FALSE
 SameGraph = FALSE
 NoReset = FALSE
 CollectLate = TRUE
INVARIANTS Safe Perms Blocks Aligned Triangular
