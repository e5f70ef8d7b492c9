SPECIFICATION MSpec
CONSTANTS Strip = FALSE
 Detection = "none"
 MaxSteps = 6
 MaxDepth = 3
 MaxFaults = 0
 MaxBegins = 3
 ChangeModes = {"Detect", "Always", "Never"}
 ChangeStreams = {"AlwaysColor", "NeverColor"}
 LayerStreams = {"None", "AlwaysColor", "NeverColor"}
 WithPanic = FALSE
INVARIANTS Paired Nested Reported Export
PROPERTIES Stops Untouched
CHECK_DEADLOCK FALSE
