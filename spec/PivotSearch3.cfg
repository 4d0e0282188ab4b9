SPECIFICATION Spec
CONSTANTS
 Threads = {0, 1, 2}
 Base <- Base2
 NCand = 3
 Cols = {1, 2, 3, 4}
 MaxLen = 2
 LateBegin = FALSE
 NoHit = FALSE
 NoRetry = FALSE
 SplitCommit = FALSE
INVARIANTS Entries Distinct Acyclic JournalOK Counted

PROPERTIES Kept
