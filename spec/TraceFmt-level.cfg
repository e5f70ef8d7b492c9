SPECIFICATION TSpec
CONSTANTS Strip = FALSE
 Detection = "level"
