SPECIFICATION Spec
CONSTANTS
 MaxLines = 4
 EofEnds = FALSE
 FaultEnds = FALSE
 MarkEndsMM = FALSE
 NoEmpty = FALSE
 OneComment = TRUE
 DigestStops = FALSE
 Split = FALSE
INVARIANTS Unambiguous Complete Welcome Room
