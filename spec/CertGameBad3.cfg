SPECIFICATION Spec
CONSTANTS
 P = 2
 N = 2
 M = 3
 NoFirst = FALSE
 NoSecond = FALSE
 TailOnly = TRUE
 NoCommit = FALSE
INVARIANTS Complete Sound
