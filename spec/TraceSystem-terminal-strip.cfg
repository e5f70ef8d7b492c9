SPECIFICATION TSpec
CONSTANTS Strip = TRUE
 Detection = "terminal"
