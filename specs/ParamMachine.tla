---------------------------- MODULE ParamMachine ----------------------------
(***************************************************************************)
(* Parameters of a core: every history of dictionary edits, substitutions,  *)
(* simplifications, inversions, connections and copies.  A parameter is     *)
(* free, or listed as a run-time parameter, or defined by the dictionary    *)
(* of the core, or gone (its symbol was replaced everywhere).  Its value is  *)
(* the same in the three last cases: that is the whole property.            *)
(***************************************************************************)
EXTENDS PHCore, Json
CONSTANTS Reg, NP, Fills, Depth, Pick(_)
PickAll(S) == S
PickOne(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
Par == 1..NP
PV(p) == TestVal(100 + p)

(* expressions: sequences of terms c * prod m / prod d ; positive ids are    *)
(* parameters, ids <= 0 are the variables of the model (0 - k).              *)
T(c, m, d) == [c |-> c, m |-> m, d |-> d]
Free == [k |-> "free", e |-> <<>>]
ExVars(e) == UNION {SeqSet(e[i].m) \cup SeqSet(e[i].d) : i \in 1..Len(e)}

RECURSIVE Val(_, _)
Val(def, p) ==
  IF def[p].k \in {"free", "par"} THEN PV(p)
  ELSE RSum(TLCEval([i \in 1..Len(def[p].e) |->
         LET t == def[p].e[i] IN
         RDiv(RMul(t.c, RProd(TLCEval([j \in 1..Len(t.m) |-> Val(def, t.m[j])]))),
              RProd(TLCEval([j \in 1..Len(t.d) |-> Val(def, t.d[j])])))]))
ExEval(def, e) ==
  LET V(a) == IF a > 0 THEN Val(def, a) ELSE TestVal(0 - a) IN
  RSum(TLCEval([i \in 1..Len(e) |->
         RDiv(RMul(e[i].c, RProd(TLCEval([j \in 1..Len(e[i].m) |-> V(e[i].m[j])]))),
              RProd(TLCEval([j \in 1..Len(e[i].d) |-> V(e[i].d[j])])))]))
RECURSIVE Depends(_, _, _)
Depends(def, p, t) ==           \* does the value of p depend on t ?
  p = t \/ (def[p].k \in {"sub", "gone"} /\ \E a \in ExVars(def[p].e) : Depends(def, a, t))

(***************************************************************************)
(* Models: two storages (ids 1 2), a dissipation (3), a port (4), two         *)
(* connected ports (5 6), an observer.                                      *)
(***************************************************************************)
P(k, i) == ((k + i) % NP) + 1
Ent(k, i, j) ==          \* coefficient between components i < j
  LET h == (k + 2 * i + 3 * j) % 11 IN
  CASE h = 0 -> <<T("1", <<P(k, i)>>, <<>>)>>
    [] h = 2 -> <<T("2", <<>>, <<P(k, j)>>)>>
    [] h = 5 -> <<T("1", <<P(k, i + j)>>, <<P(k, i)>>), T("1/2", <<>>, <<>>)>>
    [] h = 8 -> <<T("3", <<>>, <<P(k, j), P(k, j)>>)>>
    [] OTHER -> <<>>
Neg(e) == [i \in 1..Len(e) |-> [e[i] EXCEPT !.c = RNeg(@)]]
Symm(k, i, j) == (k + i + j) % 4 = 0
MEnt(k, i, j) == IF i = j THEN (IF (k + i) % 3 = 0 THEN <<T("-1", <<P(k, i)>>, <<P(k, i + 1)>>)>> ELSE <<>>)
                 ELSE IF i < j THEN Ent(k, i, j)
                 ELSE IF Symm(k, i, j) THEN Ent(k, j, i) ELSE Neg(Ent(k, j, i))
HEnt(k) == <<T("1/2", <<P(k, 1), -1, -1>>, <<>>), T("1/2", <<-2, -2>>, <<P(k, 2)>>)>> \o
           (CASE k % 4 = 0 -> <<T("1", <<-1, -2>>, <<P(k, 3)>>)>>
              [] k % 4 = 1 -> <<T("1/4", <<-1, -1, -1, -1, P(k, 4)>>, <<P(k, 2), P(k, 2)>>)>>
              [] k % 4 = 2 -> <<T("1/3", <<-1, -1, -2>>, <<P(k, 1), P(k, 5)>>)>>
              [] OTHER -> <<>>)
ZEnt(k) == <<T("1", <<P(k, 3), -3>>, <<>>)>> \o
           (IF k % 2 = 0 THEN <<T("2", <<-3, -3, -3>>, <<P(k, 4)>>)>> ELSE <<T("1", <<-3>>, <<P(k, 5)>>)>>)
AEnt(k) == CASE k % 3 = 0 -> <<T("1", <<P(k, 5)>>, <<>>)>>
             [] k % 3 = 1 -> <<T("2", <<>>, <<P(k, 2)>>)>>
             [] OTHER -> <<T("3/2", <<P(k, 2)>>, <<P(k, 3)>>)>>
OEnt(k) == <<T("1", <<P(k, 6), -1>>, <<P(k, 2)>>), T("2", <<-3>>, <<P(k, 1)>>)>>
XId == <<-1, -2>>
Diff(e, a) ==            \* variables appear in numerators only
  LET q == SelectSeq(e, LAMBDA t : CountIn(t.m, a) > 0)
  IN [i \in 1..Len(q) |-> T(RMul(q[i].c, RInt(CountIn(q[i].m, a))), RemoveOne(q[i].m, a), q[i].d)]

Spec0(k) == [M |-> [i \in 1..6 |-> [j \in 1..6 |-> MEnt(k, i, j)]],
             H |-> HEnt(k), z |-> ZEnt(k), a |-> AEnt(k), o |-> OEnt(k)]
NumCore(s) ==            \* the core with all parameters replaced by their values
  LET B == Spec0(s.k)
      C == [EmptyCore EXCEPT !.x = <<1, 2>>, !.w = <<3>>, !.y = <<4>>, !.c = <<5, 6>>,
              !.M = TLCEval([i \in 1..6 |-> [j \in 1..6 |-> ExEval(s.def, B.M[i][j])]]),
              !.con = <<<<5, 6, ExEval(s.def, B.a)>>>>]
  IN C
Solvable(s) == Resolvable(NumCore(s))
Obs(s) == LET C == NumCore(s)
              D == IF s.con THEN Connect(C) ELSE C
              B == Spec0(s.k)
          IN [M |-> Mat(D),
              alpha |-> IF s.con THEN <<>> ELSE <<C.con[1][3]>>,
              H |-> ExEval(s.def, B.H),
              dxH |-> [i \in 1..2 |-> ExEval(s.def, Diff(B.H, XId[i]))],
              z |-> <<ExEval(s.def, B.z)>>, o |-> <<ExEval(s.def, B.o)>>]

(***************************************************************************)
(* Operations                                                               *)
(***************************************************************************)
Nums == {"2", "3/4", "5"}
NewEx(def, targets) ==     \* expressions that depend on none of the targets
  LET ok == {p \in Par : def[p].k # "gone" /\ \A t \in targets : ~Depends(def, p, t)} IN
  {<<T(c, <<>>, <<>>)>> : c \in Nums} \cup
  {<<T("1", <<p>>, <<>>)>> : p \in ok} \cup {<<T("2", <<p>>, <<>>)>> : p \in ok} \cup {<<T("1", <<>>, <<p>>)>> : p \in ok} \cup
  {<<T("1", <<p>>, <<>>), T("1/2", <<q>>, <<>>)>> : p, q \in ok} \cup
  {<<T("3", <<p>>, <<q>>)>> : p, q \in ok}
IsNum(e) == Len(e) = 1 /\ e[1].m = <<>> /\ e[1].d = <<>>
Dict(s) == {p \in Par : s.def[p].k = "sub"}

Kinds == <<"setsub", "setsub", "setsub", "user", "user", "all", "exprs", "simplify", "inverse", "param", "connect", "copy">>
OpsOf(rs, r, kind) ==
  LET s == rs[r]  def == s.def IN
  CASE kind = "setsub" -> IF s.inv THEN {} ELSE
         UNION {{[op |-> "setsub", r |-> r, p |-> p, e |-> e, ty |-> ty] :
                  e \in Pick(NewEx(def, {p})), ty \in Pick({"int", "float", "sym"})}
                : p \in Pick({p \in Par : def[p].k \in {"free", "sub"}})}
    [] kind = "user" -> IF s.inv THEN {} ELSE
         UNION {{[op |-> "user", r |-> r, ps |-> ps, es |-> [i \in 1..Len(ps) |-> IF i = 1 THEN e1 ELSE e2],
                  simp |-> b, self |-> f] :
                  e1 \in Pick(NewEx(def, SeqSet(ps))), e2 \in Pick(NewEx(def, SeqSet(ps))),
                  b \in Pick({FALSE}), f \in Pick(IF \A i \in 1..Len(ps) : def[ps[i]].k = "free"
                                                    THEN {"", "", "all", "exprs"} ELSE {""})}
                : ps \in Pick({<<p>> : p \in {p \in Par : def[p].k \in {"free", "sub"}}} \cup
                          {<<p, q>> \in {p \in Par : def[p].k \in {"free", "sub"}} \X
                                        {p \in Par : def[p].k \in {"free", "sub"}} : p < q})}
    [] kind = "all" -> {[op |-> "user", r |-> r, ps |-> <<>>, es |-> <<>>, simp |-> b, self |-> "all"] : b \in Pick(BOOLEAN)}
    [] kind = "exprs" -> {[op |-> "user", r |-> r, ps |-> <<>>, es |-> <<>>, simp |-> b, self |-> "exprs"] : b \in Pick(BOOLEAN)}
    [] kind = "simplify" -> {[op |-> "simplify", r |-> r]}
    [] kind = "inverse" -> IF s.inv \/ Dict(s) = {} THEN {} ELSE {[op |-> "inverse", r |-> r]}
    [] kind = "param" -> IF s.inv THEN {} ELSE {[op |-> "param", r |-> r, p |-> p] : p \in Pick({p \in Par : def[p].k \in {"free", "sub"}})}
    [] kind = "connect" -> IF s.con \/ ~Solvable(s) THEN {} ELSE {[op |-> "connect", r |-> r]}
    [] kind = "copy" -> {[op |-> "copy", r |-> r, t |-> t] : t \in Pick({t \in Reg : t # r /\ rs[t] # rs[r]})}

\* entry p of the dictionary is applied by substituting the symbolic entries only
Symbolic(d) == d.k = "sub" /\ ~(IsNum(d.e) /\ d.ty \in {"int", "float"})
Apply(rs, e) ==
  LET s == rs[e.r]
      put(t) == [rs EXCEPT ![e.r] = t]
  IN CASE e.op = "setsub" -> put([s EXCEPT !.def[e.p] = [k |-> "sub", e |-> e.e, ty |-> IF IsNum(e.e) THEN e.ty ELSE "sym"]])
       [] e.op = "user" -> put([s EXCEPT !.def = TLCEval([p \in Par |->
              LET hit == {i \in 1..Len(e.ps) : e.ps[i] = p} IN
              IF hit # {} THEN [k |-> "gone", e |-> e.es[CHOOSE i \in hit : TRUE]]
              ELSE IF (e.self = "all" /\ @[p].k = "sub") \/ (e.self = "exprs" /\ Symbolic(@[p]))
                   THEN [k |-> "gone", e |-> @[p].e] ELSE @[p]])])
       [] e.op = "param" -> put([s EXCEPT !.def[e.p] = [k |-> "par", e |-> <<>>], !.plist = Append(@, e.p)])
       [] e.op = "inverse" -> put([s EXCEPT !.inv = TRUE])
       [] e.op = "connect" -> put([s EXCEPT !.con = TRUE])
       [] e.op = "copy" -> [rs EXCEPT ![e.t] = s]
       [] OTHER -> rs

VARIABLES regs, hist
Blank(k) == [k |-> k, def |-> [p \in Par |-> Free], con |-> FALSE, inv |-> FALSE, plist |-> <<>>]
PInit == \E k \in Fills : regs = [r \in Reg |-> Blank(k)] /\ hist = <<[op |-> "build", k |-> k, m |-> Spec0(k)]>>
PStep == \E r \in Pick(Reg) : \E i \in Pick({i \in 1..Len(Kinds) : OpsOf(regs, r, Kinds[i]) # {}}) :
           \E e \in OpsOf(regs, r, Kinds[i]) :
             /\ \A t \in Reg : Apply(regs, e)[t].con => Solvable(Apply(regs, e)[t])   \* values stay regular
             /\ regs' = Apply(regs, e) /\ hist' = Append(hist, e)
PNext == Len(hist) <= Depth /\ PStep
View == <<regs, Len(hist)>>
Emit == Len(hist) = Depth + 1 => PrintT("GEN " \o ToJson(hist))

\* the only operations that change a value are the ones that give a parameter a new value
Last == hist[Len(hist)]
PTypeOK == \A r \in Reg : \A p \in Par : regs[r].def[p].k \in {"free", "sub", "gone", "par"}
Acyclic == \A r \in Reg : \A p \in Par : regs[r].def[p].k \in {"sub", "gone"} =>
              \A a \in ExVars(regs[r].def[p].e) : ~Depends(regs[r].def, a, p)
Positive == \A r \in Reg : \A p \in Par : RLt("0", Val(regs[r].def, p))
Sound == [][ \A r \in Reg : LET e == hist'[Len(hist')] IN
               (e.op \in {"simplify", "inverse"} \/ (e.op = "user" /\ e.ps = <<>>))
                  => Obs(regs'[r]) = Obs(regs[r]) ]_<<regs, hist>>
\* applying the whole dictionary leaves nothing of it; the substituted symbols are no more needed
Closed == \A r \in Reg : (Last.op = "user" /\ Last.self = "all" /\ Last.r = r) => Dict(regs[r]) = {}
=============================================================================
