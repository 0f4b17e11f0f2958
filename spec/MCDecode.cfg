SPECIFICATION DSpec
CONSTANTS Sentinel = 65535  MaxLen = 4 Emit = TRUE
CONSTANT Schema <- PSchema
ACTION_CONSTRAINT EmitStep
INVARIANTS IsMessage ReadsAgree ItersAgree MapExact MapHigh
CHECK_DEADLOCK FALSE
