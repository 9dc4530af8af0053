CONSTANTS
  Handles = {1,2,3,4,5,6}
  Iters = {1,2,3}
  Vals = {1,2,3}
SPECIFICATION TraceSpec
INVARIANT Conforms
ALIAS Alias
CHECK_DEADLOCK TRUE
