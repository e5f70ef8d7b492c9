SPECIFICATION TSpec
CONSTANTS Strip = FALSE
 Detection = "terminal"
