SPECIFICATION Spec
CONSTANT High = 5
INVARIANTS Refines NeverTooLong
PROPERTY Ends
