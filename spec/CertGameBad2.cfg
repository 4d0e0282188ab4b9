SPECIFICATION Spec
CONSTANTS
 P = 3
 N = 2
 M = 2
 NoFirst = FALSE
 NoSecond = TRUE
 TailOnly = FALSE
 NoCommit = FALSE
INVARIANTS Complete Sound
