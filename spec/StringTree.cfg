SPECIFICATION Spec
CONSTANTS MaxCalls = 2 MaxArgs = 2 Strict = {FALSE, TRUE} Emit = TRUE
ACTION_CONSTRAINT EmitStep
INVARIANT InOrder
PROPERTY Sticky
CHECK_DEADLOCK FALSE
