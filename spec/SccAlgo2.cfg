SPECIFICATION Spec
CONSTANTS
 N = 4
 NoRaise = FALSE
 NoReturn = FALSE
 TreeOnly = FALSE
INVARIANTS Components Stacked Complete

