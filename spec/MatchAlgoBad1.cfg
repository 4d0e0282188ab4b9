SPECIFICATION Spec
CONSTANTS
 N = 3
 M = 3
 StaleMarks = TRUE
 StalePointer = FALSE
 TopOnly = FALSE
 SkipLook = FALSE
INVARIANTS Valid AllMatched Maximum

