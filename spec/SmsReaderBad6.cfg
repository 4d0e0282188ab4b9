SPECIFICATION Spec
CONSTANTS
 MaxLines = 4
 EofEnds = FALSE
 FaultEnds = FALSE
 MarkEndsMM = FALSE
 NoEmpty = FALSE
 OneComment = FALSE
 DigestStops = TRUE
 Split = FALSE
INVARIANTS Unambiguous Complete Welcome Room
