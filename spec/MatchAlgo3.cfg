SPECIFICATION Spec
CONSTANTS
 N = 2
 M = 4
 StaleMarks = FALSE
 StalePointer = FALSE
 TopOnly = FALSE
 SkipLook = FALSE
INVARIANTS Valid AllMatched Maximum
PROPERTIES Monotone Terminates
