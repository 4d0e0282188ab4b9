SPECIFICATION Spec
CONSTANTS
 N = 9
 B = 2
 Faults = 3
 Flush = TRUE
 Look = TRUE
 Close = TRUE
 Sticky = FALSE
INVARIANTS SuccessMeansWhole NoFaultNoFailure NothingInvented
