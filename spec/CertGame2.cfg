SPECIFICATION Spec
CONSTANTS
 P = 2
 N = 3
 M = 3
 NoFirst = FALSE
 NoSecond = FALSE
 TailOnly = FALSE
 NoCommit = FALSE
INVARIANTS Complete Sound
