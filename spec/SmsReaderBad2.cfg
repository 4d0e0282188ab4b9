SPECIFICATION Spec
CONSTANTS
 MaxLines = 4
 EofEnds = FALSE
 FaultEnds = TRUE
 MarkEndsMM = FALSE
 NoEmpty = FALSE
 OneComment = FALSE
 DigestStops = FALSE
 Split = FALSE
INVARIANTS Unambiguous Complete Welcome Room
