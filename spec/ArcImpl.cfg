SPECIFICATION Spec
CONSTANTS Threads = {1, 2, 3}
 MaxClones = 1
 MaxUses = 1
 DropOrder = "Release"
 DropFence = "Acquire"
 MutFence = "Acquire"
 CloneOrder = "Relaxed"
INVARIANTS Safe OnceOnly NotEarly CountsRefs NoLeak
CHECK_DEADLOCK FALSE
