SPECIFICATION Spec
CONSTANTS
 N = 3
 NoRaise = FALSE
 NoReturn = TRUE
 TreeOnly = FALSE
INVARIANTS Components Stacked Complete

