SPECIFICATION Spec
CONSTANTS
 N = 3
 M = 3
 StaleMarks = FALSE
 StalePointer = FALSE
 TopOnly = FALSE
 SkipLook = FALSE
INVARIANTS Valid AllMatched Maximum
PROPERTIES Monotone Terminates
