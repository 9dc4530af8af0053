CONSTANTS
  U <- U4
  V = {0, 1}
  Arg <- Arg4
INIT Init
NEXT Next
INVARIANTS LawsC01 LawsC02 LawsC03 LawsC04 LawsC05 LawsC06 LawsC07
CHECK_DEADLOCK FALSE
