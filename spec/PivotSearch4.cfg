SPECIFICATION Spec
CONSTANTS
 Threads = {0, 1}
 Base <- Base3
 NCand = 3
 Cols = {1, 2, 3, 4, 5}
 MaxLen = 3
 LateBegin = FALSE
 NoHit = FALSE
 NoRetry = FALSE
 SplitCommit = FALSE
INVARIANTS Entries Distinct Acyclic JournalOK Counted

PROPERTIES Kept
