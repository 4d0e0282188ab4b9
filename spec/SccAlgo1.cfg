SPECIFICATION Spec
CONSTANTS
 N = 3
 NoRaise = FALSE
 NoReturn = FALSE
 TreeOnly = FALSE
INVARIANTS Components Stacked Complete
PROPERTIES Terminates
