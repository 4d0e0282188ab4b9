SPECIFICATION Spec
CONSTANTS
 N = 2
 M = 2
 K = 3
 StaleBound = FALSE
 OldStart = FALSE
 KeepZero = FALSE
 LastWins = TRUE
INVARIANTS Correct Ahead
