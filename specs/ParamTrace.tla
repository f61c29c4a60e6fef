----------------------------- MODULE ParamTrace -----------------------------
EXTENDS ParamMachine
Traces == JsonDeserialize("traces.json")
VARIABLES tid, pos, done
Mismatch(s, o) ==
  LET B == Obs(s) IN
  CASE SeqSet(o.dict) # Dict(s) -> "dictionary"
    [] o.plist # s.plist -> "parameters"
    [] SeqSet(o.appear) \cap {p \in Par : s.def[p].k = "gone"} # {} -> "substituted-symbol-remains"
    [] ~CloseMat(o.M, B.M) -> "structure"
    [] ~CloseSeq(o.alpha, B.alpha) -> "connection-coefficient"
    [] ~CloseSeq(o.dxH, B.dxH) -> "energy-gradient"
    [] ~Close(o.H, B.H) -> "energy"
    [] ~CloseSeq(o.z, B.z) -> "dissipation"
    [] ~CloseSeq(o.o, B.o) -> "observer"
    [] OTHER -> ""
RECURSIVE FirstBad(_, _, _)
FirstBad(rs, R, o) ==
  IF R = {} THEN "" ELSE LET r == CHOOSE r \in R : TRUE
                             m == Mismatch(rs[r], o[r])
                         IN IF m # "" THEN m \o "@" \o r ELSE FirstBad(rs, R \ {r}, o)
Verdict(c) == PrintT("VERDICT " \o ToString(tid) \o " " \o c \o " " \o ToString(pos))
Ev(t, i) == Traces[t].ev[i]
TInit == /\ tid \in 1..Len(Traces) /\ pos = 0 /\ done = FALSE /\ hist = <<>>
         /\ regs = [r \in Reg |-> Blank(Traces[tid].ev[1].k)]
TNext ==
  /\ ~done /\ pos < Len(Traces[tid].ev)
  /\ LET e == Ev(tid, pos + 1)
         o == Traces[tid].obs[pos + 1]
         new == IF e.op = "build" THEN regs ELSE Apply(regs, e)
         clause == IF o.exc # "" THEN "exception" ELSE IF o.mutated THEN "caller-dictionary-modified" ELSE FirstBad(new, Reg, o.reg)
     IN /\ pos' = pos + 1 /\ UNCHANGED <<hist, tid>>
        /\ regs' = new
        /\ done' = (clause # "" \/ pos + 1 = Len(Traces[tid].ev))
        /\ (clause # "") => Verdict(clause)
        /\ (clause = "" /\ done') => Verdict("ok")
=============================================================================
