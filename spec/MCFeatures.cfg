SPECIFICATION Spec
INVARIANT Exactness NothingOfStd Additivity
PROPERTY Ends
CHECK_DEADLOCK FALSE
