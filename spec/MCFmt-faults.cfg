SPECIFICATION MSpec
CONSTANTS Strip = FALSE
 Detection = "none"
 MaxSteps = 5
 MaxDepth = 3
 MaxFaults = 2
 MaxBegins = 3
 ChangeModes = {}
 ChangeStreams = {}
 LayerStreams = {"None", "AlwaysColor", "NeverColor"}
 WithPanic = TRUE
INVARIANTS Paired Nested Reported Export
PROPERTIES Stops Untouched
CHECK_DEADLOCK FALSE
