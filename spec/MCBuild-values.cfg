SPECIFICATION Spec
CONSTANTS N = 3
 Effs = {"Bold", "Underline", "SubScript"}
 WithValues = TRUE
INVARIANTS ColorsRight EffectsRight StreamRight LayersRight Export
PROPERTIES InnerKept WrapKept OneAttribute
CHECK_DEADLOCK FALSE
