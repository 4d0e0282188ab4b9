SPECIFICATION Spec
CONSTANTS
 Threads = {0, 1}
 Lens <- LensC
 Cap0 = 0
 LateRegister = FALSE
 NoWait = FALSE
 SharedBase = FALSE
 CheckBefore = FALSE
INVARIANTS Safe Result Exclusive Writers
PROPERTIES Implements Terminates
