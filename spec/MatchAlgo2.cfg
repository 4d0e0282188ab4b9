SPECIFICATION Spec
CONSTANTS
 N = 4
 M = 2
 StaleMarks = FALSE
 StalePointer = FALSE
 TopOnly = FALSE
 SkipLook = FALSE
INVARIANTS Valid AllMatched Maximum
PROPERTIES Monotone Terminates
