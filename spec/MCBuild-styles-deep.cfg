SPECIFICATION Spec
CONSTANTS N = 4
 Effs = {"Bold", "Underline", "SubScript"}
 WithValues = FALSE
INVARIANTS ColorsRight EffectsRight StreamRight LayersRight Export
PROPERTIES InnerKept WrapKept OneAttribute
CHECK_DEADLOCK FALSE
