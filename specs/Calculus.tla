------------------------------ MODULE Calculus ------------------------------
(***************************************************************************)
(* Symbolic calculus over expression trees: derivatives, products of       *)
(* matrices and vectors, and the derived quantities of a model             *)
(*   [x, w, u: names, H: tree, z: trees, M: matrix of trees]               *)
(***************************************************************************)
EXTENDS Expr
N(v) == [k |-> "num", v |-> v, a |-> <<>>]
S1(v) == [k |-> "sym", v |-> v, a |-> <<>>]
Nd(k, v, a) == [k |-> k, v |-> v, a |-> a]
Times(s, t) == IF s = N("0") \/ t = N("0") THEN N("0") ELSE IF s = N("1") THEN t ELSE IF t = N("1") THEN s ELSE Nd("mul", "", <<s, t>>)
Keep(s) == SelectSeq(s, LAMBDA t : t # N("0"))
Plus(s) == LET r == Keep(s) IN IF r = <<>> THEN N("0") ELSE IF Len(r) = 1 THEN r[1] ELSE Nd("add", "", r)
RECURSIVE Diff(_, _)
Diff(e, s) ==
  LET d(i) == Diff(e.a[i], s)
      inner(f) == IF d(1) = N("0") THEN N("0") ELSE Times(f, d(1)) IN
  CASE e.k = "num" -> N("0")
    [] e.k = "sym" -> IF e.v = s THEN N("1") ELSE N("0")
    [] e.k = "add" -> Plus([i \in 1..Len(e.a) |-> d(i)])
    [] e.k = "mul" -> Plus([i \in 1..Len(e.a) |-> IF d(i) = N("0") THEN N("0") ELSE Nd("mul", "", [j \in 1..Len(e.a) |-> IF j = i THEN d(i) ELSE e.a[j]])])
    [] e.k = "pow" -> inner(Times(N(RInt(e.v)), Nd("pow", e.v - 1, <<e.a[1]>>)))
    [] e.k = "exp" -> inner(e)
    [] e.k = "log" -> inner(Nd("pow", 0 - 1, <<e.a[1]>>))
    [] e.k = "sin" -> inner(Nd("cos", "", <<e.a[1]>>))
    [] e.k = "cos" -> inner(Times(N("-1"), Nd("sin", "", <<e.a[1]>>)))
    [] e.k = "tanh" -> inner(Plus(<<N("1"), Times(N("-1"), Nd("pow", 2, <<e>>))>>))
    [] e.k = "sqrt" -> inner(Times(N("1/2"), Nd("pow", 0 - 1, <<e>>)))
    [] e.k = "ite" -> Nd("ite", "", [i \in 1..Len(e.a) |-> IF i % 2 = 1 THEN e.a[i] ELSE d(i)])
    [] OTHER -> Assert(FALSE, <<"no derivative", e.k>>)
Gradient(e, vs) == TLCEval([i \in 1..Len(vs) |-> Diff(e, vs[i])])
Jacobian(f, vs) == TLCEval([i \in 1..Len(f) |-> Gradient(f[i], vs)])
Hessian(e, vs) == TLCEval(Jacobian(Gradient(e, vs), vs))

\* values
V1(f, env) == TLCEval([i \in 1..Len(f) |-> Val(f[i], env)])
V2(A, env) == TLCEval([i \in 1..Len(A) |-> V1(A[i], env)])
RECURSIVE Symbols(_)
Symbols(e) == IF e.k = "sym" THEN {e.v} ELSE UNION {Symbols(e.a[i]) : i \in 1..Len(e.a)}
\* efforts, outputs and dissipated power of a model
Efforts(m) == Gradient(m.H, m.x) \o m.z \o [i \in 1..Len(m.u) |-> S1(m.u[i])]
EffortVals(m, env) == V1(Efforts(m), env)
Outputs(m, env) ==
  LET a == EffortVals(m, env)  n == Len(m.x) + Len(m.w) IN
  TLCEval([k \in 1..Len(m.u) |-> RDot(V1(m.M[n + k], env), a)])
Dissipated(m, env) ==
  LET a == EffortVals(m, env)
      A == V2(m.M, env)
      Ra == TLCEval([i \in 1..Len(a) |-> RDiv(RNeg(RAdd(RDot(A[i], a), RDot(Col(A, i), a))), "2")])
  IN RAdd(RDot([i \in 1..Len(m.w) |-> env[m.w[i]]], V1(m.z, env)), RDot(a, Ra))
=============================================================================
