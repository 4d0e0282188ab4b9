SPECIFICATION Spec
CONSTANTS
 N = 3
 NoRaise = TRUE
 NoReturn = FALSE
 TreeOnly = FALSE
INVARIANTS Components Stacked Complete

