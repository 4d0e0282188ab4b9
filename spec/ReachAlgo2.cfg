SPECIFICATION Spec
CONSTANTS
 M = 4
 NRows = 3
 Calls = 1
 NoUnmark = FALSE
 Reversed = FALSE
 NoPivotSkip = FALSE
INVARIANTS Correct NoClash Clean
PROPERTIES Terminates
