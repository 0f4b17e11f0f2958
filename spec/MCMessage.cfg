SPECIFICATION MCSpec
CONSTANTS Sentinel = 65535  Depth = 3 Emit = TRUE
CONSTANT Schema <- PSchema
VIEW View
ACTION_CONSTRAINT EmitStep
INVARIANTS IsMessage ReadsAgree ItersAgree EncodingAgrees NoResidue MapExact MapHigh OffsetsCanonical LaidOut
PROPERTIES Frame Refines
CHECK_DEADLOCK FALSE
