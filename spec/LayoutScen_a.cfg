CONSTANTS MaxFields = 3 MaxGroups = 1 MaxTotal = 3
  Frames = {{}, {"gran"}, {"lat"}, {"lon"}, {"lat", "lon"}, {"gran", "lat"}, {"gran", "lon"}, {"gran", "dgran", "lat", "lon"}, {"dgran"}}
  Modes = {"tagfilter"} Policy = "right"
INIT Init
NEXT Next
CONSTRAINT Stop
INVARIANT Emit1
CHECK_DEADLOCK FALSE
