SPECIFICATION Spec
CONSTANTS MaxRuns = 1 MaxFiles = 3 MaxTwice = 0 Emit = TRUE
ACTION_CONSTRAINT EmitStep
INVARIANT NamesFit Exactly Stable
CHECK_DEADLOCK FALSE
