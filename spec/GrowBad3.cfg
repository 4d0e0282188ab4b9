SPECIFICATION Spec
CONSTANTS
 T = 2
 N = 4
 Arrays = 2
 OnRefusal = "null"
INVARIANTS Inside Right Explained
PROPERTY Terminates
CHECK_DEADLOCK FALSE
