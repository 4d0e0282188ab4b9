SPECIFICATION Spec
CONSTANTS
 N = 7
 B = 3
 Faults = 1
 Flush = FALSE
 Look = TRUE
 Close = TRUE
 Sticky = TRUE
INVARIANTS SuccessMeansWhole NoFaultNoFailure NothingInvented
