SPECIFICATION MSpec
CONSTANTS Strip = FALSE
 Detection = "level"
 MaxOps = 5
 MaxDepth = 2
 MaxPrints = 2
 Calls <- CallsSmall
 Settings = {"Detect", "Never"}
 Spans <- SpansSmall
INVARIANTS Shown NoLeak Pasted Stripped
PROPERTIES Other Outer Innermost Apart
CHECK_DEADLOCK FALSE
