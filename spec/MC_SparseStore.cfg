SPECIFICATION Spec
CONSTANTS MaxM = 2
          MaxOps = 5
INVARIANTS UpperOnly CompressionFaithful ProductsDenote
PROPERTY SourceKept
CHECK_DEADLOCK FALSE
