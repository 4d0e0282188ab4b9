SPECIFICATION Spec
CONSTANTS
 N = 2
 M = 1
 K = 4
 StaleBound = FALSE
 OldStart = TRUE
 KeepZero = FALSE
 LastWins = FALSE
INVARIANTS Correct Ahead
