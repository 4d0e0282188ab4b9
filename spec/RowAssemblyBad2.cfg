SPECIFICATION Spec
CONSTANTS
 Threads = {0, 1}
 Lens <- LensA
 Cap0 = 1
 LateRegister = FALSE
 NoWait = TRUE
 SharedBase = FALSE
 CheckBefore = FALSE
INVARIANTS Safe Result 
PROPERTIES Implements 
