---------------------------- MODULE ReduceTrace ----------------------------
EXTENDS ReduceMachine, Json
Traces == JsonDeserialize("traces.json")
VARIABLES tid, pos, done
CT == INSTANCE CoreTrace WITH NoReg <- "none"

LinMismatch(C, k, o) ==
  LET xl == SubSeq(C.x, 1, k.xl)  wl == SubSeq(C.w, 1, k.wl)
      kind(b) == CASE b = "xl" -> xl [] b = "xnl" -> SubSeq(C.x, k.xl + 1, Len(C.x))
                   [] b = "wl" -> wl [] b = "wnl" -> SubSeq(C.w, k.wl + 1, Len(C.w))
                   [] b = "y" -> C.y [] OTHER -> C.c
  IN CASE o.lin.n # <<k.xl, Len(C.x) - k.xl, k.wl, Len(C.w) - k.wl, k.mono>> -> "class-dimensions"
       [] o.lin.xl # xl -> "linear-states"
       [] o.lin.wl # wl -> "linear-dissipations"
       [] ~CloseMat(o.lin.Q, [i \in 1..Len(xl) |-> [j \in 1..Len(xl) |-> HCoef(C, xl[i], xl[j])]]) -> "Q"
       [] ~CloseSeq(o.lin.bl, [i \in 1..Len(xl) |-> H1(C, xl[i])]) -> "bl"
       [] ~CloseMat(o.lin.Zl, [i \in 1..Len(wl) |-> [j \in 1..Len(wl) |-> ZCoef(C, wl[i], wl[j])]]) -> "Zl"
       [] \E i \in 1..Len(o.lin.blocks) :
             LET b == o.lin.blocks[i] IN
             ~CloseMat(b.v, [p \in 1..Len(kind(b.a)) |-> [q \in 1..Len(kind(b.b)) |-> C.M[kind(b.a)[p]][kind(b.b)[q]]]]) -> "class-blocks"
       [] OTHER -> ""

RECURSIVE FirstLin(_, _, _, _)
FirstLin(rs, cl, R, o) ==
  IF R = {} THEN ""
  ELSE LET r == CHOOSE r \in R : TRUE
           m == LinMismatch(rs[r], cl[r], o[r])
       IN IF m # "" THEN m \o "@" \o r ELSE FirstLin(rs, cl, R \ {r}, o)

Verdict(c) == PrintT("VERDICT " \o ToString(tid) \o " " \o c \o " " \o ToString(pos))
TInit == RInit /\ tid \in 1..Len(Traces) /\ pos = 0 /\ done = FALSE
TNext ==
  /\ ~done /\ pos < Len(Traces[tid].ev)
  /\ LET e == Traces[tid].ev[pos + 1]
         o == Traces[tid].obs[pos + 1]
         refuse == RMayRefuse(regs, e)
         free == e.op \in RKinds /\ o.exc = "" /\ ~refuse
         ox == IF free THEN o.reg[e.r].x ELSE StableX(regs, cls, e)
         ow == IF free THEN o.reg[e.r].w ELSE StableW(regs, e)
         adm == ~free \/ Admissible(regs, cls, e, ox, ow)
         new == IF adm THEN RApply(regs, e, ox, ow) ELSE regs
         ncl == RCls(regs, cls, e)
         c1 == IF o.exc # "" THEN (IF refuse /\ o.where = "op" THEN "" ELSE "exception")
               ELSE IF refuse THEN "accepted-unsolvable"
               ELSE IF ~adm THEN "classification"
               ELSE CT!FirstBad(new, Reg, o.reg)
         clause == IF c1 # "" \/ o.exc # "" THEN c1 ELSE FirstLin(new, ncl, Reg, o.reg)
         stop == o.exc # ""
     IN /\ pos' = pos + 1 /\ hist' = hist /\ nid' = nid /\ tid' = tid
        /\ regs' = new /\ cls' = ncl
        /\ done' = (clause # "" \/ stop \/ pos + 1 = Len(Traces[tid].ev))
        /\ (clause # "") => Verdict(clause)
        /\ (clause = "" /\ done') => Verdict("ok")
=============================================================================
