SPECIFICATION Spec
CONSTANTS
 M = 3
 NRows = 2
 Calls = 2
 NoUnmark = FALSE
 Reversed = FALSE
 NoPivotSkip = FALSE
INVARIANTS Correct NoClash Clean
PROPERTIES Terminates
