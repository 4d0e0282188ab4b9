SPECIFICATION Spec
CONSTANTS
 N = 2
 M = 2
 K = 5
 StaleBound = FALSE
 OldStart = FALSE
 KeepZero = FALSE
 LastWins = FALSE
INVARIANTS Correct Ahead
