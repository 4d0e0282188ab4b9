SPECIFICATION Spec
CONSTANTS
 Threads = {0, 1}
 Lens <- LensA
 Cap0 = 1
 LateRegister = TRUE
 NoWait = FALSE
 SharedBase = FALSE
 CheckBefore = FALSE
INVARIANTS Safe Result 
PROPERTIES Implements 
