SPECIFICATION Spec
CONSTANTS
 P = 2
 N = 3
 M = 2
 NoFirst = FALSE
 NoSecond = FALSE
 TailOnly = FALSE
 NoCommit = TRUE
INVARIANTS Complete Sound
