SPECIFICATION TraceSpec
ALIAS Alias
CHECK_DEADLOCK TRUE
