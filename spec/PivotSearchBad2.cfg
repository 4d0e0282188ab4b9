SPECIFICATION Spec
CONSTANTS
 Threads = {0, 1}
 Base <- Base2
 NCand = 2
 Cols = {1, 2, 3, 4}
 MaxLen = 4
 LateBegin = FALSE
 NoHit = TRUE
 NoRetry = FALSE
 SplitCommit = FALSE
INVARIANTS Entries Distinct Acyclic JournalOK Counted

PROPERTIES Kept
