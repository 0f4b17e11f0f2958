SPECIFICATION MSpec
CONSTANTS Sentinel = 65535  Calls = 2 Objects = 3 Parts = 5
CONSTANT Schema <- PSchema
VIEW View
ACTION_CONSTRAINT EmitStep
INVARIANTS Intact Inside
CHECK_DEADLOCK FALSE
