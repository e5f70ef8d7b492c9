SPECIFICATION TSpec
CONSTANTS Strip = FALSE
 Detection = "none"
