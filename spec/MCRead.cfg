SPECIFICATION RSpec
CONSTANTS Sentinel = 65535  Writes = 2 Reads = 2 Readers = 2
CONSTANT Schema <- PSchema
INVARIANTS ReadsAgree ItersAgree Yields Emitted
PROPERTY ReadsArePure
CHECK_DEADLOCK FALSE
