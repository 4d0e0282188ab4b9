SPECIFICATION Spec
CONSTANTS
 N = 3
 M = 3
 StaleMarks = FALSE
 StalePointer = FALSE
 TopOnly = TRUE
 SkipLook = FALSE
INVARIANTS Valid AllMatched Maximum

