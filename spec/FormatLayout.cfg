SPECIFICATION Spec
CONSTANTS Aspect = "layout"
Here <- Nowhere
Union <- FlatUnion
CHECK_DEADLOCK FALSE
