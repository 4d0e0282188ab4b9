SPECIFICATION Spec
CONSTANTS
 N = 7
 B = 3
 Faults = 2
 Flush = TRUE
 Look = TRUE
 Close = FALSE
 Sticky = FALSE
INVARIANTS SuccessMeansWhole NoFaultNoFailure NothingInvented
