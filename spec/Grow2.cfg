SPECIFICATION Spec
CONSTANTS
 T = 3
 N = 5
 Arrays = 3
 OnRefusal = "stop"
INVARIANTS Inside Right Explained
PROPERTY Terminates
CHECK_DEADLOCK FALSE
