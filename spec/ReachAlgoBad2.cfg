SPECIFICATION Spec
CONSTANTS
 M = 3
 NRows = 2
 Calls = 1
 NoUnmark = FALSE
 Reversed = TRUE
 NoPivotSkip = FALSE
INVARIANTS Correct NoClash Clean

