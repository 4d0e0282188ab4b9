SPECIFICATION Spec
CONSTANT Failing <- NoRecord
INVARIANT Agree
