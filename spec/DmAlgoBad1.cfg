SPECIFICATION Spec
CONSTANTS
 N = 3
 M = 3
 NotMaximum = TRUE
 OneHop = FALSE
 SameGraph = FALSE
 NoReset = FALSE
 CollectLate = FALSE
INVARIANTS Safe Perms Blocks Aligned Triangular
