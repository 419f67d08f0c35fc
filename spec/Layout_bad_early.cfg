CONSTANTS MaxFields = 3 MaxGroups = 2 MaxTotal = 3
  Frames = {{}, {"gran"}, {"lat", "lon"}, {"gran", "dgran", "lat", "lon"}}
  Modes = {"rewritenodes", "tagfilter", "nodeindex", "wayindex", "relindex", "entityfind"} Policy = "early"
INIT Init
NEXT Next
INVARIANTS Through Rebuilt Seen
CHECK_DEADLOCK FALSE
