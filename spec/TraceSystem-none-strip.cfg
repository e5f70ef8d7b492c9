SPECIFICATION TSpec
CONSTANTS Strip = TRUE
 Detection = "none"
