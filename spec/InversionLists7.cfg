SPECIFICATION Spec
CONSTANT High = 7
INVARIANTS Refines NeverTooLong
