SPECIFICATION Spec
CONSTANTS Aspect = "meaning"
Here <- Nowhere
Union <- FlatUnion
CHECK_DEADLOCK FALSE
