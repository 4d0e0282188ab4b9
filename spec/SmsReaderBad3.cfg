SPECIFICATION Spec
CONSTANTS
 MaxLines = 4
 EofEnds = FALSE
 FaultEnds = FALSE
 MarkEndsMM = TRUE
 NoEmpty = FALSE
 OneComment = FALSE
 DigestStops = FALSE
 Split = FALSE
INVARIANTS Unambiguous Complete Welcome Room
