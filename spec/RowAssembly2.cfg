SPECIFICATION Spec
CONSTANTS
 Threads = {0, 1, 2}
 Lens <- LensA
 Cap0 = 1
 LateRegister = FALSE
 NoWait = FALSE
 SharedBase = FALSE
 CheckBefore = FALSE
INVARIANTS Safe Result Exclusive Writers
PROPERTIES Implements Terminates
