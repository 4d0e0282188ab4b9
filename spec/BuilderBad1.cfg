SPECIFICATION Spec
CONSTANTS
 N = 2
 M = 2
 K = 4
 StaleBound = TRUE
 OldStart = FALSE
 KeepZero = FALSE
 LastWins = FALSE
INVARIANTS Correct Ahead
