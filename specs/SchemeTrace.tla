---------------------------- MODULE SchemeTrace ----------------------------
(***************************************************************************)
(* Recorded simulations against the scheme.  Traces[t]: m, cf, x0, st (the  *)
(* inputs asked for) and rec: for each time step x, dx, w, u, p, g, z, y as *)
(* recorded, and E, pd, ps, dtE, dEH as reported by the data reader.        *)
(***************************************************************************)
EXTENDS Scheme, Json
CONSTANT Mode         \* "step" or "power"
Traces == JsonDeserialize("traces.json")
VARIABLES tid, pos

Small(a, tol) == RLe(RAbs(a), tol)
Rel == "1/1000000000"
Solver == "1/100000000"
Ulp == "1/70368744177664"                       \* 2^-46
AbsPoly(p, pt) == RSum(TLCEval([i \in 1..Len(p) |-> RAbs(RMul(p[i].c, ProdVals(p[i].m, LAMBDA v : pt[v[1]][v[2]])))]))
Mag(m, x, dx, S) == LET P == Part(m, S)
                        big == TLCEval([i \in 1..m.nx |-> RAdd(RAbs(x[i]), RAbs(dx[i]))])
                    IN AbsPoly(P, XPoint(big))
\* what rounding allows on component i of the gradient: differences of energies are divided by dx
GTol(m, cf, x, dx, i) ==
  LET S == IF i \in Coupled(m) THEN Coupled(m) ELSE {i}
      n == IF i \in Coupled(m) THEN RMaxAbs(TLCEval([j \in 1..m.nx |-> IF j \in CoupledNL(m) THEN dx[j] ELSE "0"])) ELSE RAbs(dx[i])
      gm == AbsPoly(PolyDiff(m.H, <<"x", i>>), XPoint(TLCEval([j \in 1..m.nx |-> RAdd(RAbs(x[j]), RAbs(dx[j]))])))
  IN RAdd(RMul(Rel, RAdd("1", gm)),
          IF cf.grad # "discret" \/ n = "0" THEN "0" ELSE RDiv(RMul(Ulp, Mag(m, x, dx, S)), n))
GradOK(m, cf, r) ==
  LET tol == TLCEval([i \in 1..m.nx |-> GTol(m, cf, r.x, r.dx, i)])
      ok(g) == \A i \in 1..m.nx : Small(RSub(r.g[i], g[i]), tol[i])
  IN IF cf.grad = "discret" THEN \E S \in Admissible(m) : ok(TLCEval(DiscreteE(m, r.x, r.dx, S, EpsDG(cf))))
     ELSE ok(TLCEval(Scheme(m, cf, r.x, r.dx)))

\* everything the model says about one record, given the recorded gradient and dissipation law
Clauses(T, n) ==
  LET m == T.m  cf == T.cf  r == T.rec[n]
      o == Observers(m, r.x, r.u, r.p)
      z == LawZ(m, cf, r.x, r.dx, r.w, r.u, r.p, r.g, o)
      A == Struct(m, cf, r.x, r.dx, r.w, r.u, r.p, r.g, o)
      a == TLCEval(r.g \o r.z \o r.u)
      b == MatVec(A, a)
      v == TLCEval(VecScale(cf.fs, r.dx) \o r.w \o r.y)
      gt(j) == IF j <= m.nx THEN GTol(m, cf, r.x, r.dx, j) ELSE "0"
      tol(i) == RAdd(RMul(Solver, RAdd("1", RSum(TLCEval([j \in 1..Len(a) |-> RAbs(RMul(A[i][j], a[j]))])))),
                     RSum(TLCEval([j \in 1..Len(a) |-> RAbs(RMul(A[i][j], gt(j)))])))
      ztol(i) == RMul(Rel, RAdd("1", AbsPoly(m.z[i], Pt(TLCEval([j \in 1..m.nx |-> RAdd(RAbs(r.x[j]), RAbs(r.dx[j]))]),
                                                         r.w, r.u, r.p, r.g, o))))
  IN CASE r.u # T.st[n].u \/ r.p # T.st[n].p -> "inputs"
       [] n = 1 /\ ~CloseSeq(r.x, T.x0) -> "initial-state"
       [] n > 1 /\ \E i \in 1..m.nx : ~CloseTo(r.x[i], RAdd(T.rec[n - 1].x[i], T.rec[n - 1].dx[i]), "1/1000000000000") -> "state-update"
       [] ~GradOK(m, cf, r) -> "gradient"
       [] \E i \in 1..m.nw : ~Small(RSub(r.z[i], z[i]), ztol(i)) -> "dissipation-law"
       [] \E i \in 1..(m.nx + m.nw) : ~Small(RSub(v[i], b[i]), tol(i)) -> "structure-equation"
       [] \E i \in 1..m.ny : LET q == m.nx + m.nw + i IN ~Small(RSub(v[q], b[q]), tol(q)) -> "output"
       [] OTHER -> ""

\* energy: everything from the recorded x, dx, w, z, u, y and the reported powers
Power(T, n) ==
  LET m == T.m  cf == T.cf  r == T.rec[n]
      o == Observers(m, r.x, r.u, r.p)
      A == Struct(m, cf, r.x, r.dx, r.w, r.u, r.p, r.g, o)
      a == TLCEval(r.g \o r.z \o r.u)
      x1 == VecAdd(r.x, r.dx)
      E0 == Energy(m, r.x)  E1 == Energy(m, x1)
      dE == RMul(cf.fs, RSub(E1, E0))
      wz == RDot(r.w, r.z)  uy == RDot(r.u, r.y)
      fr == Friction(A, a)
      pd == RAdd(wz, fr)
      \* size of the exchanged powers and of the rounding on the energies
      size == RSum(TLCEval([i \in 1..m.nx |-> RAbs(RMul(RMul(cf.fs, r.dx[i]), r.g[i]))]
                     \o [i \in 1..m.nw |-> RAbs(RMul(r.w[i], r.z[i]))] \o [i \in 1..m.ny |-> RAbs(RMul(r.u[i], r.y[i]))]))
      flow == RMaxAbs(TLCEval(a))
      tol == RAdd(RMul(Solver, RAdd("1", RAdd(size, flow))), RMul(RMul(Ulp, cf.fs), Mag(m, r.x, r.dx, 1..m.nx)))
      near(p, q) == Small(RSub(p, q), tol)
      passive == \A i \in 1..m.ny : r.u[i] = "0"
  IN CASE cf.grad = "discret" /\ ~near(dE, RNeg(RSum(<<wz, fr, uy>>))) -> "energy-balance"
       [] cf.grad = "discret" /\ passive /\ RLe("0", pd) /\ ~RLe(dE, tol) -> "energy-gain"
       [] ~CloseTo(r.E, E0, Rel) -> "reported-energy"
       [] ~near(r.pd, pd) -> "reported-dissipation"
       [] ~near(r.ps, uy) -> "reported-source-power"
       [] ~near(r.dtE, RMul(cf.fs, RDot(r.g, r.dx))) -> "reported-variation"
       [] n < Len(T.rec) /\ ~near(r.dEH, RMul(cf.fs, RSub(Energy(m, T.rec[n + 1].x), E0))) -> "reported-difference"
       [] ~near(RSum(<<r.dtE, r.pd, r.ps>>), "0") -> "reported-balance"
       [] OTHER -> ""
Verdict(c) == PrintT("VERDICT " \o ToString(tid) \o " " \o c \o " " \o ToString(pos))
Ok(T) == Len(T.rec) = Len(T.st)
TInit == tid \in 1..Len(Traces) /\ pos = 0
TNext ==
  /\ pos >= 0
  /\ LET T == Traces[tid]
         n == pos + 1
         c == IF T.exc # "" THEN "exception" ELSE IF ~Ok(T) THEN "length" ELSE IF Mode = "step" THEN Clauses(T, n) ELSE Power(T, n)
         last == c # "" \/ n = Len(T.rec)
     IN /\ (c # "") => Verdict(c)
        /\ (c = "" /\ last) => Verdict("ok")
        /\ pos' = IF last THEN 0 - 1 ELSE n
        /\ UNCHANGED tid
=============================================================================
