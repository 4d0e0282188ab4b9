SPECIFICATION Spec
CONSTANTS
 MaxLines = 5
 EofEnds = FALSE
 FaultEnds = FALSE
 MarkEndsMM = FALSE
 NoEmpty = FALSE
 OneComment = FALSE
 DigestStops = FALSE
 Split = FALSE
INVARIANTS Unambiguous Complete Welcome Room
PROPERTY Terminates
