------------------------------- MODULE Scheme -------------------------------
(***************************************************************************)
(* The discrete-time port-Hamiltonian model.                               *)
(*                                                                         *)
(*    ( fs dx, w, y ) = M . ( grad, z, u ),        x' = x + dx             *)
(*                                                                         *)
(* grad is the discrete gradient of H between x and x + dx, the gradient at *)
(* x + theta dx, or the mean of the gradients at both ends; M and z are     *)
(* evaluated at x + theta dx, or are the means over both ends.              *)
(*                                                                         *)
(* A model m: nx, nw, ny, np, no; H a polynomial of the states; z, M, o     *)
(* polynomials of variables <<kind, index>> with kinds x w u p g o.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, BigRat, RatLib

At(p, pt) == PolyEval(p, LAMBDA v : pt[v[1]][v[2]])
VecAdd(a, b) == TLCEval([i \in 1..Len(a) |-> RAdd(a[i], b[i])])
VecScale(k, a) == TLCEval([i \in 1..Len(a) |-> RMul(k, a[i])])
XPoint(x) == [x |-> x]
Energy(m, x) == At(m.H, XPoint(x))
Grad(m, x) == TLCEval([i \in 1..m.nx |-> At(PolyDiff(m.H, <<"x", i>>), XPoint(x))])

\* ---------------------------------------------------------------- gradient
Mentions(t, i) == CountIn(t.m, <<"x", i>>) > 0
Coupled(m) == {i \in 1..m.nx : \E k \in 1..Len(m.H) : m.H[k].c # "0" /\ Mentions(m.H[k], i)
                                  /\ \E j \in (1..m.nx) \ {i} : Mentions(m.H[k], j)}
Quadratic(m, i) == \A k \in 1..Len(m.H) : (m.H[k].c # "0" /\ Mentions(m.H[k], i)) => Len(m.H[k].m) <= 2
\* quadratic storages which are not coupled to other ones
RECURSIVE CloseQ(_, _)
CloseQ(m, L) == LET bad == {i \in L : \E k \in 1..Len(m.H) : m.H[k].c # "0" /\ Mentions(m.H[k], i)
                                         /\ \E j \in (1..m.nx) \ L : Mentions(m.H[k], j)}
                IN IF bad = {} THEN L ELSE CloseQ(m, L \ bad)
CoupledNL(m) == Coupled(m) \ CloseQ(m, {i \in 1..m.nx : Quadratic(m, i)})

Part(m, S) == SelectSeq(m.H, LAMBDA t : \E i \in S : Mentions(t, i))
Moved(x, dx, S) == TLCEval([i \in 1..Len(x) |-> IF i \in S THEN RAdd(x[i], dx[i]) ELSE x[i]])
DeltaH(m, x, dx, S) == LET P == Part(m, S) IN RSub(At(P, XPoint(Moved(x, dx, S))), At(P, XPoint(x)))
Half(x, dx) == VecAdd(x, VecScale("1/2", dx))

\* increments smaller than e use the second order expansion of the quotient
Quotient(m, x, dx, i, e) ==
  LET d1 == PolyDiff(m.H, <<"x", i>>) IN
  IF dx[i] = "0" \/ (RLe(RNeg(e), dx[i]) /\ RLt(dx[i], e))
  THEN RAdd(At(d1, XPoint(x)), RMul(RMul("1/2", dx[i]), At(PolyDiff(d1, <<"x", i>>), XPoint(x))))
  ELSE RDiv(DeltaH(m, x, dx, {i}), dx[i])
Norm2(dx, S) == RSum(TLCEval([i \in 1..Len(dx) |-> IF i \in S THEN RMul(dx[i], dx[i]) ELSE "0"]))
Corr(m, x, dx, mid, S, e) ==
  LET n2 == Norm2(dx, S) IN
  IF n2 = "0" \/ RLt(n2, RMul(e, e)) THEN "0"
  ELSE RDiv(RSub(DeltaH(m, x, dx, S),
                 RSum(TLCEval([i \in 1..m.nx |-> IF i \in S THEN RMul(mid[i], dx[i]) ELSE "0"]))), n2)
\* S: the storages over which the multivariate correction is spread
DiscreteE(m, x, dx, S, e) ==
  LET mid == Grad(m, Half(x, dx))
      c == TLCEval(Corr(m, x, dx, mid, S, e))
      cp == TLCEval(Coupled(m))
  IN TLCEval([i \in 1..m.nx |-> IF i \in cp THEN RAdd(mid[i], IF i \in S THEN RMul(c, dx[i]) ELSE "0")
                                ELSE Quotient(m, x, dx, i, e)])
Discrete(m, x, dx, S) == DiscreteE(m, x, dx, S, "0")
EpsDG(cf) == IF "epsdg" \in DOMAIN cf THEN cf.epsdg ELSE "0"
Admissible(m) == {S \in SUBSET Coupled(m) : CoupledNL(m) \subseteq S}

GradTheta(m, x, dx, th) == Grad(m, VecAdd(x, VecScale(th, dx)))
GradTrapez(m, x, dx) == VecScale("1/2", VecAdd(Grad(m, x), Grad(m, VecAdd(x, dx))))
Scheme(m, cf, x, dx) == CASE cf.grad = "discret" -> DiscreteE(m, x, dx, Coupled(m), EpsDG(cf))
                          [] cf.grad = "theta" -> GradTheta(m, x, dx, cf.theta)
                          [] OTHER -> GradTrapez(m, x, dx)

\* --------------------------------------------------------------- structure
Pt(x, w, u, p, g, o) == [x |-> x, w |-> w, u |-> u, p |-> p, g |-> g, o |-> o]
Observers(m, x, u, p) == TLCEval([k \in 1..m.no |-> At(m.o[k], [x |-> x, u |-> u, p |-> p])])
Evaluated(q, cf, x, dx, w, u, p, g, o) ==
  IF cf.grad = "trapez"
  THEN RDiv(RAdd(At(q, Pt(x, w, u, p, g, o)), At(q, Pt(VecAdd(x, dx), w, u, p, g, o))), "2")
  ELSE At(q, Pt(VecAdd(x, VecScale(cf.theta, dx)), w, u, p, g, o))
LawZ(m, cf, x, dx, w, u, p, g, o) == TLCEval([i \in 1..m.nw |-> Evaluated(m.z[i], cf, x, dx, w, u, p, g, o)])
Struct(m, cf, x, dx, w, u, p, g, o) ==
  LET n == m.nx + m.nw + m.ny IN
  TLCEval([i \in 1..n |-> [j \in 1..n |-> IF m.M[i][j] = <<>> THEN "0" ELSE Evaluated(m.M[i][j], cf, x, dx, w, u, p, g, o)]])

\* ------------------------------------------------------------ one time step
Step(m, cf, x, u, p, dx, w) ==
  LET o == Observers(m, x, u, p)
      g == TLCEval(Scheme(m, cf, x, dx))
      z == LawZ(m, cf, x, dx, w, u, p, g, o)
      a == TLCEval(g \o z \o u)
      A == Struct(m, cf, x, dx, w, u, p, g, o)
      b == MatVec(A, a)
  IN [g |-> g, z |-> z, a |-> a, M |-> A, b |-> b, y |-> SubSeq(b, m.nx + m.nw + 1, Len(b))]
Residual(m, cf, x, u, p, v) ==
  LET dx == SubSeq(v, 1, m.nx)  w == SubSeq(v, m.nx + 1, m.nx + m.nw)
      s == TLCEval(Step(m, cf, x, u, p, dx, w))
  IN TLCEval([i \in 1..(m.nx + m.nw) |-> RSub(IF i <= m.nx THEN RMul(cf.fs, v[i]) ELSE v[i], s.b[i])])
\* power absorbed by the resistive part of the structure
Friction(M, a) == RNeg(RDot(a, MatVec(M, a)))
=============================================================================
