SPECIFICATION Spec
CONSTANTS
 MaxLines = 4
 EofEnds = FALSE
 FaultEnds = FALSE
 MarkEndsMM = FALSE
 NoEmpty = TRUE
 OneComment = FALSE
 DigestStops = FALSE
 Split = FALSE
INVARIANTS Unambiguous Complete Welcome Room
