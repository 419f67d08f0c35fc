CONSTANTS MaxFields = 3 MaxGroups = 2 MaxTotal = 4
  Frames = {{}, {"gran", "lat", "lon"}}
  Modes = {"tagfilter"} Policy = "right"
INIT Init
NEXT Next
CONSTRAINT Stop
INVARIANT Emit1
CHECK_DEADLOCK FALSE
