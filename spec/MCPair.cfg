SPECIFICATION PSpec
CONSTANTS Sentinel = 65535  Steps = 3 Messages = 2
CONSTANT Schema <- PSchema
INVARIANTS ReadsAgree ItersAgree EncodingAgrees Independent Emitted
CHECK_DEADLOCK FALSE
