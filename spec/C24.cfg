SPECIFICATION RSpec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
CONSTANT Failing <- FailMem
