----------------------------- MODULE CoreTrace -----------------------------
(***************************************************************************)
(* Replays traces recorded from the code.  traces.json: a sequence of       *)
(* [ev |-> sequence of operations, obs |-> sequence of observations]; an    *)
(* observation is [exc |-> "" or the exception, reg |-> [name -> record]].  *)
(***************************************************************************)
EXTENDS CoreMachine, Json
CONSTANT NoReg
Traces == JsonDeserialize("traces.json")
VARIABLES tid, pos, done
tvars == <<regs, nid, hist, tid, pos, done>>

\* names of the clauses the observed core o breaks, "" if none
Mismatch(C, o) ==
  LET s == Order(C) n == Len(s)
      A == Mat(C)
  IN CASE o.x # C.x -> "states"
       [] o.w # C.w -> "dissipative-variables"
       [] o.u # C.y -> "inputs"
       [] o.y # C.y -> "outputs"
       [] o.cu # o.cy -> "connector-ports"
       [] o.cy # C.c -> "connectors"
       [] o.p # C.p -> "parameters"
       [] o.o # C.o -> "observers"
       [] o.dims # <<Len(C.x), Len(C.w), Len(C.y), Len(C.c), n>> -> "dimensions"
       [] o.labels # s -> "labels"
       [] SeqSet(o.fw) # C.fw -> "forced-nonlinear"
       [] {<<o.sub[i][1], RCanon(o.sub[i][2])>> : i \in 1..Len(o.sub)} # {<<a, C.sub[a]>> : a \in DOMAIN C.sub} -> "substitutions"
       [] [i \in 1..Len(o.con) |-> <<o.con[i][1], o.con[i][2], o.con[i][3], o.con[i][4], RCanon(o.con[i][5])>>]
            # [i \in 1..Len(C.con) |-> <<C.con[i][1], C.con[i][1], C.con[i][2], C.con[i][2], C.con[i][3]>>] -> "connections"
       [] ~CloseMat(o.M, A) -> "structure-M"
       [] ~CloseMat(o.J, [i \in 1..n |-> [j \in 1..n |-> Jc(C, s[i], s[j])]]) -> "structure-J"
       [] ~CloseMat(o.R, [i \in 1..n |-> [j \in 1..n |-> Rc(C, s[i], s[j])]]) -> "structure-R"
       [] ~CloseSeq(o.dxH, GradH(C)) -> "energy-gradient"
       [] ~Close(o.H, PolyEval(C.H, TestVal)) -> "energy"
       [] ~CloseSeq(o.z, ZVal(C)) -> "dissipation-law"
       [] \E i \in 1..Len(o.blocks) :
             LET b == o.blocks[i]
                 f(a, c) == CASE b.part = "M" -> C.M[a][c] [] b.part = "J" -> Jc(C, a, c) [] OTHER -> Rc(C, a, c)
             IN ~CloseMat(b.v, [k \in 1..Len(C[b.a]) |-> [l \in 1..Len(C[b.b]) |-> f(C[b.a][k], C[b.b][l])]]) -> "block-accessor"
       [] OTHER -> ""

RECURSIVE FirstBad(_, _, _)
FirstBad(rs, R, o) ==
  IF R = {} THEN ""
  ELSE LET r == CHOOSE r \in R : TRUE
           m == Mismatch(rs[r], o[r])
       IN IF m # "" THEN m \o "@" \o r ELSE FirstBad(rs, R \ {r}, o)

Verdict(c) == PrintT("VERDICT " \o ToString(tid) \o " " \o c \o " " \o ToString(pos))

TInit == Init /\ tid \in 1..Len(Traces) /\ pos = 0 /\ done = FALSE
TStep ==
  /\ ~done /\ pos < Len(Traces[tid].ev)
  /\ LET e == Traces[tid].ev[pos + 1]
         o == Traces[tid].obs[pos + 1]
         refuse == MayRefuse(regs, e)
         new == Apply(regs, e)
         clause == IF o.exc # "" THEN (IF refuse /\ o.where = "op" THEN FirstBad(regs, Reg \ {e.r}, o.reg) ELSE "exception")
                   ELSE IF refuse THEN "accepted-unresolvable"
                   ELSE FirstBad(new, Reg, o.reg)
         stop == o.exc # "" /\ refuse
     IN /\ pos' = pos + 1 /\ hist' = hist /\ nid' = nid /\ tid' = tid
        /\ regs' = new
        /\ done' = (clause # "" \/ stop \/ pos + 1 = Len(Traces[tid].ev))
        /\ (clause # "") => Verdict(clause)
        /\ (clause = "" /\ done') => Verdict("ok")
TNext == TStep
=============================================================================
