SPECIFICATION Spec
CONSTANTS Stride = 1 Every = 1 Emit = TRUE
ACTION_CONSTRAINT EmitStep
INVARIANT Honest Whole
PROPERTY Ends
CHECK_DEADLOCK FALSE
