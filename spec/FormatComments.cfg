SPECIFICATION Spec
CONSTANTS Aspect = "comments"
Here <- Nowhere
Union <- FlatUnion
CHECK_DEADLOCK FALSE
