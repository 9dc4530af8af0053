CONSTANTS
  PS = 4
  LS = 1
  Chunk = 2
  MaxWrites = 4
  MaxFaults = 2
  MaxSyncs = 1
  MaxCells = 20
SPECIFICATION Spec
CONSTRAINT Small
INVARIANTS Readable CrashSafe PowerSafe Mapped IdsInPage
PROPERTIES Refines
CHECK_DEADLOCK FALSE
