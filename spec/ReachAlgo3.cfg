SPECIFICATION Spec
CONSTANTS
 M = 3
 NRows = 2
 Calls = 1
 NoUnmark = FALSE
 Reversed = FALSE
 NoPivotSkip = TRUE
INVARIANTS Correct NoClash Clean
PROPERTIES Terminates
