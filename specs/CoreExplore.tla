---------------------------- MODULE CoreExplore ----------------------------
EXTENDS CoreMachine, Json
CONSTANT Depth
vars == <<regs, nid, hist>>
Next == Len(hist) < Depth /\ Step
View == <<regs, nid, Len(hist)>>
\* generation: print the history of every completed behaviour
Emit == Len(hist) = Depth => PrintT("GEN " \o ToJson(hist))
=============================================================================
