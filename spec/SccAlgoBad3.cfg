SPECIFICATION Spec
CONSTANTS
 N = 3
 NoRaise = FALSE
 NoReturn = FALSE
 TreeOnly = TRUE
INVARIANTS Components Stacked Complete

