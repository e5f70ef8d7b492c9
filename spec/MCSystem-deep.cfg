SPECIFICATION MSpec
CONSTANTS Strip = FALSE
 Detection = "terminal"
 MaxOps = 6
 MaxDepth = 2
 MaxPrints = 2
 Calls <- CallsAll
 Settings = {"Detect", "Never"}
 Spans <- SpansSmall
INVARIANTS Shown NoLeak Pasted Stripped
PROPERTIES Other Outer Innermost Apart
CHECK_DEADLOCK FALSE
