SPECIFICATION Spec
CONSTANTS Catalogue <- MCCatalogue
          MaxDepth = 2
          MaxOps = 4
INVARIANTS WellFormed Exact OnlyOwned AllClosedIsDefault PlainIsSilent PlainIffEmpty
CHECK_DEADLOCK FALSE
