SPECIFICATION Spec
INVARIANTS Bounded SuccessIsSmallStep FailureIsJustified RestartsInOrder
PROPERTY Terminates
CHECK_DEADLOCK FALSE
