--------------------------- MODULE ReduceMachine ---------------------------
(***************************************************************************)
(* Linear / nonlinear separation, separable / coupled separation, and       *)
(* elimination of linear dissipations, on top of the core machine.          *)
(*                                                                         *)
(* cls[r] records how many leading storages / dissipations are classified   *)
(* linear, and how many of the nonlinear storages are separable.  The       *)
(* order inside a class is not specified: an implementation may choose it.  *)
(***************************************************************************)
EXTENDS CoreMachine

NoClass == [xl |-> 0, wl |-> 0, mono |-> 0]

D2(C, a, b) == PolyDiff(PolyDiff(C.H, a), b)
ConstPoly(p) == PolyVars(p) = {}
NullPoly(p) == \A i \in 1..Len(p) : p[i].c = "0"

\* quadratic storages which the energy does not couple to a non quadratic one
RECURSIVE CloseX(_, _)
CloseX(C, L) ==
  LET bad == {a \in L : \E b \in SeqSet(C.x) \ L : ~NullPoly(D2(C, a, b))}
  IN IF bad = {} THEN L ELSE CloseX(C, L \ bad)
LinX(C) == CloseX(C, {a \in SeqSet(C.x) : \A b \in SeqSet(C.x) : ConstPoly(D2(C, a, b))})

\* dissipations with a linear law of linear dissipations only, on which no other law depends
RECURSIVE CloseW(_, _)
CloseW(C, L) ==
  LET bad == {a \in L : \E b \in SeqSet(C.w) \ L : a \in PolyVars(C.z[b]) \/ b \in PolyVars(C.z[a])}
  IN IF bad = {} THEN L ELSE CloseW(C, L \ bad)
LinW(C) == CloseW(C, {a \in SeqSet(C.w) :
                        /\ \A i \in 1..Len(C.z[a]) : Len(C.z[a][i].m) = 1
                        /\ \A b \in SeqSet(C.w) : ConstPoly(PolyDiff(C.z[b], a))})
Eliminated(C) == CloseW(C, LinW(C) \ C.fw)

Separable(C, S) == {a \in S : \A b \in S \ {a} : NullPoly(D2(C, a, b))}

ZCoef(C, a, b) == RSum(TLCEval(LET d == PolyDiff(C.z[a], b) IN [i \in 1..Len(d) |-> d[i].c]))
HCoef(C, a, b) == RSum(TLCEval(LET d == D2(C, a, b) IN [i \in 1..Len(d) |-> d[i].c]))
\* dH/da at the origin
H1(C, a) == LET d == PolyDiff(C.H, a) IN RSum(TLCEval([i \in 1..Len(d) |-> IF d[i].m = <<>> THEN d[i].c ELSE "0"]))

\* w_l = Mle a + Mll z_l ,  z_l = Z w_l   =>  (I - Mll Z) w_l = Mle a
ElimGain(C) ==
  LET l == SelectSeq(C.w, LAMBDA a : a \in Eliminated(C))  n == Len(l)
      k == SelectSeq(Order(C), LAMBDA a : a \notin Eliminated(C))
      Mll == TLCEval([i \in 1..n |-> [j \in 1..n |-> C.M[l[i]][l[j]]]])
      Z   == TLCEval([i \in 1..n |-> [j \in 1..n |-> ZCoef(C, l[i], l[j])]])
      Mle == TLCEval([i \in 1..n |-> [j \in 1..Len(k) |-> C.M[l[i]][k[j]]]])
      W   == SolveChecked(MatSub(Eye(n), MatMul(Mll, Z, n)), Mle)
  IN [l |-> l, k |-> k, ok |-> (W # <<>>), zl |-> IF W = <<>> THEN <<>> ELSE MatMul(Z, W, Len(k))]
Reducible(C) == Eliminated(C) = {} \/ ElimGain(C).ok
Reduce(C) ==
  IF Eliminated(C) = {} THEN C ELSE
  LET g == TLCEval(ElimGain(C))
      ix(a) == CHOOSE i \in 1..Len(g.k) : g.k[i] = a
      new(a, b) == RAdd(C.M[a][b], RDot(TLCEval([i \in 1..Len(g.l) |-> C.M[a][g.l[i]]]),
                                        TLCEval([i \in 1..Len(g.l) |-> g.zl[i][ix(b)]])))
  IN [C EXCEPT !.M = TLCEval([a \in SeqSet(g.k) |-> [b \in SeqSet(g.k) |-> new(a, b)]]),
               !.w = SelectSeq(@, LAMBDA a : a \notin Eliminated(C)),
               !.z = TLCEval([a \in DOMAIN @ \ Eliminated(C) |-> @[a]])]

Part(s, L) == SelectSeq(s, LAMBDA a : a \in L) \o SelectSeq(s, LAMBDA a : a \notin L)
IsPerm(s, t) == Len(s) = Len(t) /\ SeqSet(s) = SeqSet(t)
ClassOf(C, ox, ow) ==    \* class counts for the orders ox, ow
  [xl |-> Cardinality(LinX(C)), wl |-> Cardinality(LinW(C)), mono |-> 0]

VARIABLE cls
rvars == <<regs, nid, hist, cls>>

RKinds == {"split", "mono", "reduce"}
RCand(rs, cl, kind) ==
  IF kind \in RKinds THEN {<<r>> : r \in {r \in Reg : Dim(rs[r]) > 0 /\ Len(rs[r].c) = 0}}
  ELSE IF kind = "movex" THEN {<<r, "x">> : r \in {r \in Reg : Len(rs[r].x) > 1}}
  ELSE Cand(rs, kind)

\* moves that stay inside one class
SameClass(C, k, f, i, j) ==
  LET b == IF f = "x" THEN {k.xl, k.xl + k.mono} ELSE IF f = "w" THEN {k.wl} ELSE {}
  IN \A c \in b : (i <= c) = (j <= c)
ROps(rs, cl, n, kind, cd) ==
  IF kind \in RKinds THEN {[op |-> kind, r |-> cd[1]]}
  ELSE IF kind \in {"movex", "movew"}
       THEN LET C == rs[cd[1]]  f == cd[2] IN
            {[op |-> "move", r |-> cd[1], kind |-> f, i |-> p[1], j |-> p[2]]
               : p \in Pick({p \in (1..Len(C[f])) \X (1..Len(C[f])) : SameClass(C, cl[cd[1]], f, p[1], p[2])})}
       ELSE OpsAt(rs, n, kind, cd)

\* effect, given the orders (ox, ow) chosen inside the classes
RApply(rs, e, ox, ow) ==
  LET C == rs[e.r] IN
  CASE e.op = "split" -> [rs EXCEPT ![e.r].x = ox, ![e.r].w = ow]
    [] e.op = "mono"  -> [rs EXCEPT ![e.r].x = ox]
    [] e.op = "reduce" -> IF Reducible(C) THEN [rs EXCEPT ![e.r] = [Reduce(C) EXCEPT !.x = ox, !.w = ow]] ELSE rs
    [] OTHER -> Apply(rs, e)
RCls(rs, cl, e) ==
  LET C == rs[e.r] IN
  CASE e.op = "split" -> [cl EXCEPT ![e.r].xl = Cardinality(LinX(C)), ![e.r].wl = Cardinality(LinW(C))]
    [] e.op = "reduce" -> [cl EXCEPT ![e.r].xl = Cardinality(LinX(C)), ![e.r].wl = 0]
    [] e.op = "mono" -> [cl EXCEPT ![e.r].mono = Cardinality(Separable(C, SeqSet(SubSeq(C.x, cl[e.r].xl + 1, Len(C.x)))))]
    [] e.op = "copy" -> [cl EXCEPT ![e.t] = cl[e.r]]
    [] OTHER -> cl
RMayRefuse(rs, e) == IF e.op = "reduce" THEN ~Reducible(rs[e.r])
                     ELSE IF e.op \in RKinds THEN FALSE ELSE MayRefuse(rs, e)

\* is (ox, ow) an admissible pair of orders for the classification e ?
Admissible(rs, cl, e, ox, ow) ==
  LET C == rs[e.r]
      n == cl[e.r].xl
  IN CASE e.op = "split" -> /\ IsPerm(ox, C.x) /\ SeqSet(SubSeq(ox, 1, Cardinality(LinX(C)))) = LinX(C)
                            /\ IsPerm(ow, C.w) /\ SeqSet(SubSeq(ow, 1, Cardinality(LinW(C)))) = LinW(C)
       [] e.op = "reduce" -> /\ IsPerm(ox, C.x) /\ SeqSet(SubSeq(ox, 1, Cardinality(LinX(C)))) = LinX(C)
                             /\ IsPerm(ow, SelectSeq(C.w, LAMBDA a : a \notin Eliminated(C)))
       [] e.op = "mono" -> /\ IsPerm(ox, C.x) /\ SubSeq(ox, 1, n) = SubSeq(C.x, 1, n) /\ ow = C.w
                           /\ LET S == Separable(C, SeqSet(SubSeq(C.x, n + 1, Len(C.x))))
                              IN SeqSet(SubSeq(ox, n + 1, n + Cardinality(S))) = S
       [] OTHER -> TRUE

StableX(rs, cl, e) == LET C == rs[e.r] IN
  IF e.op \in {"split", "reduce"} THEN Part(C.x, LinX(C))
  ELSE IF e.op = "mono" THEN SubSeq(C.x, 1, cl[e.r].xl) \o
       Part(SubSeq(C.x, cl[e.r].xl + 1, Len(C.x)), Separable(C, SeqSet(SubSeq(C.x, cl[e.r].xl + 1, Len(C.x)))))
  ELSE C.x
StableW(rs, e) == LET C == rs[e.r] IN
  IF e.op = "split" THEN Part(C.w, LinW(C))
  ELSE IF e.op = "reduce" THEN SelectSeq(Part(C.w, LinW(C)), LAMBDA a : a \notin Eliminated(C)) ELSE C.w

RInit == Init /\ cls = [r \in Reg |-> NoClass]
RStep == LET en == {i \in 1..Len(Kinds) : RCand(regs, cls, Kinds[i]) # {}} IN
         \E i \in Pick(en) : \E cd \in Pick(RCand(regs, cls, Kinds[i])) :
           \E e \in ROps(regs, cls, nid, Kinds[i], cd) :
              /\ regs' = RApply(regs, e, StableX(regs, cls, e), StableW(regs, e))
              /\ cls' = RCls(regs, cls, e)
              /\ nid' = NextNid(nid, e)
              /\ hist' = Append(hist, e)

(***************************************************************************)
(* Invariants: the reduction is the elimination - for any efforts of the    *)
(* kept components there is one w_l with z_l = Z w_l giving the same flows -*)
(* and does not create energy: a dissipative law reduces to a dissipative   *)
(* structure.                                                               *)
(***************************************************************************)
EffortOf(a) == TestVal(3 * a + 1)
ReduceSound == \A r \in Reg : LET C == regs[r] IN
  (Eliminated(C) # {} /\ Len(C.c) = 0 /\ Reducible(C)) =>
     LET g == TLCEval(ElimGain(C))  D == TLCEval(Reduce(C))
         a == TLCEval([i \in 1..Len(g.k) |-> EffortOf(g.k[i])])
         zl == MatVec(g.zl, a)
         s == g.l \o g.k
         full == TLCEval(zl \o a)
         flow(b) == RDot(TLCEval([i \in 1..Len(s) |-> C.M[b][s[i]]]), full)
     IN /\ \A i \in 1..Len(g.k) : flow(g.k[i]) = RDot(TLCEval([j \in 1..Len(g.k) |-> D.M[g.k[i]][g.k[j]]]), a)
        /\ \A i \in 1..Len(g.l) : zl[i] = RSum(TLCEval([j \in 1..Len(g.l) |-> RMul(ZCoef(C, g.l[i], g.l[j]), flow(g.l[j]))]))
        \* power seen by the kept components = power of the full structure - dissipated in l
        /\ Skew(Mat(C)) =>
             RDot(a, TLCEval([i \in 1..Len(g.k) |-> flow(g.k[i])]))
               = RNeg(RDot(zl, TLCEval([i \in 1..Len(g.l) |-> flow(g.l[i])])))
ClassSound == \A r \in Reg : /\ cls[r].xl <= Len(regs[r].x) /\ cls[r].wl <= Len(regs[r].w)
                             /\ cls[r].xl + cls[r].mono <= Len(regs[r].x) + cls[r].xl
\* classification is stable: classifying twice is classifying once
Idempotent == \A r \in Reg : LET e == [op |-> "split", r |-> r]
                                 s1 == RApply(regs, e, StableX(regs, cls, e), StableW(regs, e))
                             IN LinX(s1[r]) = LinX(regs[r]) /\ LinW(s1[r]) = LinW(regs[r])
=============================================================================
