CONSTANTS
  Ids = {}
  Toks = {}
  Slots = {1,2,3}
SPECIFICATION TraceSpec
ALIAS Alias
INVARIANTS DurableKnown
PROPERTIES DurableKept
CHECK_DEADLOCK TRUE
