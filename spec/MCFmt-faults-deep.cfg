SPECIFICATION MSpec
CONSTANTS Strip = FALSE
 Detection = "none"
 MaxSteps = 7
 MaxDepth = 4
 MaxFaults = 2
 MaxBegins = 4
 ChangeModes = {}
 ChangeStreams = {}
 LayerStreams = {"None", "AlwaysColor", "NeverColor"}
 WithPanic = TRUE
INVARIANTS Paired Nested Reported Export
PROPERTIES Stops Untouched
CHECK_DEADLOCK FALSE
