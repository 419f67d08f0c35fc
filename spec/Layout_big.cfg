CONSTANTS MaxFields = 3 MaxGroups = 3 MaxTotal = 4
  Frames = {{}, {"gran"}, {"lat", "lon"}, {"gran", "dgran", "lat", "lon"}}
  Modes = {"rewritenodes", "tagfilter", "nodeindex", "wayindex", "relindex", "entityfind"} Policy = "right"
SPECIFICATION Spec
INVARIANTS Through Rebuilt Seen
PROPERTY Ends
CHECK_DEADLOCK FALSE
