SPECIFICATION Spec
CONSTANTS
 Threads = {0, 1}
 Lens <- LensA
 Cap0 = 1
 LateRegister = FALSE
 NoWait = FALSE
 SharedBase = FALSE
 CheckBefore = TRUE
INVARIANTS Safe Result 
PROPERTIES Implements 
