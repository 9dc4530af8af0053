CONSTANTS
  Handles = {1, 2}
  Iters = {1}
  Vals = {1}
  K <- KSmall
  V = {0, 1}
  MaxVer = 1
SPECIFICATION Spec
CONSTRAINT Bound
VIEW View
INVARIANTS TypeOK LoadExact
PROPERTIES VersionsImmutable Isolation SnapshotsStable
CHECK_DEADLOCK FALSE
