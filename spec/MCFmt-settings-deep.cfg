SPECIFICATION MSpec
CONSTANTS Strip = FALSE
 Detection = "none"
 MaxSteps = 7
 MaxDepth = 4
 MaxFaults = 0
 MaxBegins = 4
 ChangeModes = {"Detect", "Always", "Never"}
 ChangeStreams = {"AlwaysColor", "NeverColor"}
 LayerStreams = {"None", "AlwaysColor", "NeverColor"}
 WithPanic = FALSE
INVARIANTS Paired Nested Reported Export
PROPERTIES Stops Untouched
CHECK_DEADLOCK FALSE
