SPECIFICATION Spec
CONSTANTS MaxMsgs = 3 MaxFields = 6 Weight = 0 Emit = TRUE
ACTION_CONSTRAINT EmitStep
INVARIANT Unambiguous Iterators
CHECK_DEADLOCK FALSE
