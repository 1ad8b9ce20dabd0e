SPECIFICATION Spec
INVARIANTS Ends Steps Answer Integers_
POSTCONDITION Done
CHECK_DEADLOCK FALSE
