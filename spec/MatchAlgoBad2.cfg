SPECIFICATION Spec
CONSTANTS
 N = 3
 M = 3
 StaleMarks = FALSE
 StalePointer = TRUE
 TopOnly = FALSE
 SkipLook = FALSE
INVARIANTS Valid AllMatched Maximum

