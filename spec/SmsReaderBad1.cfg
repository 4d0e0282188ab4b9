SPECIFICATION Spec
CONSTANTS
 MaxLines = 4
 EofEnds = TRUE
 FaultEnds = FALSE
 MarkEndsMM = FALSE
 NoEmpty = FALSE
 OneComment = FALSE
 DigestStops = FALSE
 Split = FALSE
INVARIANTS Unambiguous Complete Welcome Room
