SPECIFICATION Spec
CONSTANTS
 N = 3
 M = 2
 K = 3
 StaleBound = FALSE
 OldStart = FALSE
 KeepZero = FALSE
 LastWins = FALSE
INVARIANTS Correct Ahead
