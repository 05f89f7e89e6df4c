SPECIFICATION Spec
CONSTANT Bad <- BadEq
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
