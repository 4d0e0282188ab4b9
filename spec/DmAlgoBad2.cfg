SPECIFICATION Spec
CONSTANTS
 N = 3
 M = 3
 NotMaximum = FALSE
 OneHop = TRUE
 SameGraph = FALSE
 NoReset = FALSE
 CollectLate = FALSE
INVARIANTS Safe Perms Blocks Aligned Triangular
