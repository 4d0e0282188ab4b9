SPECIFICATION Spec
CONSTANTS
 N = 7
 B = 3
 Faults = 1
 Flush = FALSE
 Look = FALSE
 Close = TRUE
 Sticky = FALSE
INVARIANTS SuccessMeansWhole NoFaultNoFailure NothingInvented
