--------------------------- MODULE ReduceExplore ---------------------------
EXTENDS ReduceMachine, Json
CONSTANT Depth
Next == Len(hist) < Depth /\ RStep
View == <<regs, cls, nid, Len(hist)>>
Emit == Len(hist) = Depth => PrintT("GEN " \o ToJson(hist))
=============================================================================
