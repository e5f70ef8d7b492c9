SPECIFICATION TSpec
CONSTANTS Strip = TRUE
 Detection = "level"
