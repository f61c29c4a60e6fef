-------------------------------- MODULE Expr --------------------------------
(***************************************************************************)
(* Values of symbolic expressions and of numerical operations.             *)
(*                                                                         *)
(* An expression is a tree: [k: kind, a: arguments, v: constant or name].  *)
(*   num sym add mul pow (integer exponent v) powr (any exponent)          *)
(*   exp log sin cos tan tanh sqrt abs sign max min                        *)
(*   ite  (arguments: condition, value, condition, value, ...)             *)
(*   lt le gt ge eq ne and or not true                                     *)
(* The value is exact for rational expressions and rounded (2 ulp) at each *)
(* transcendental function.                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, BigRat, RatLib

RECURSIVE Val(_, _), Holds(_, _), IteVal(_, _, _)
Vals(a, env) == TLCEval([i \in 1..Len(a) |-> Val(a[i], env)])
IntPow(b, n) == IF n >= 0 THEN RPow(b, n) ELSE RDiv("1", RPow(b, 0 - n))
RECURSIVE Fold(_, _)
Fold(s, less) == IF Len(s) = 1 THEN s[1]
                 ELSE LET r == Fold(Tail(s), less) IN IF RLt(s[1], r) = less THEN s[1] ELSE r
Val(e, env) ==
  CASE e.k = "num" -> e.v
    [] e.k = "sym" -> env[e.v]
    [] e.k = "add" -> RSum(Vals(e.a, env))
    [] e.k = "mul" -> RProd(Vals(e.a, env))
    [] e.k = "pow" -> IntPow(Val(e.a[1], env), e.v)
    [] e.k = "powr" -> RPowR(Val(e.a[1], env), Val(e.a[2], env))
    [] e.k = "exp" -> RExp(Val(e.a[1], env))
    [] e.k = "log" -> RLog(Val(e.a[1], env))
    [] e.k = "sin" -> RSin(Val(e.a[1], env))
    [] e.k = "cos" -> RCos(Val(e.a[1], env))
    [] e.k = "tan" -> RTan(Val(e.a[1], env))
    [] e.k = "tanh" -> RTanh(Val(e.a[1], env))
    [] e.k = "sqrt" -> RSqrt(Val(e.a[1], env))
    [] e.k = "abs" -> RAbs(Val(e.a[1], env))
    [] e.k = "sign" -> LET v == Val(e.a[1], env) IN IF v = "0" THEN "0" ELSE IF RLt(v, "0") THEN "-1" ELSE "1"
    [] e.k = "max" -> Fold(Vals(e.a, env), FALSE)
    [] e.k = "min" -> Fold(Vals(e.a, env), TRUE)
    [] e.k = "ite" -> IteVal(e.a, 1, env)
    [] OTHER -> Assert(FALSE, <<"unknown expression", e.k>>)
IteVal(a, i, env) == IF i > Len(a) THEN "0" ELSE IF Holds(a[i], env) THEN Val(a[i + 1], env) ELSE IteVal(a, i + 2, env)
Holds(c, env) ==
  LET l == Val(c.a[1], env)  r == Val(c.a[2], env) IN
  CASE c.k = "true" -> TRUE
    [] c.k = "not" -> ~Holds(c.a[1], env)
    [] c.k = "and" -> \A i \in 1..Len(c.a) : Holds(c.a[i], env)
    [] c.k = "or" -> \E i \in 1..Len(c.a) : Holds(c.a[i], env)
    [] c.k = "lt" -> RLt(l, r)
    [] c.k = "le" -> RLe(l, r)
    [] c.k = "gt" -> RLt(r, l)
    [] c.k = "ge" -> RLe(r, l)
    [] c.k = "eq" -> l = r
    [] OTHER -> l # r

\* is the value defined, and insensitive to rounding errors?
Margin == "1/1000000"
RECURSIVE Sound(_, _), CondSound(_, _), IteSound(_, _, _)
Sound(e, env) ==
  CASE e.k \in {"num", "sym"} -> TRUE
    [] e.k = "ite" -> IteSound(e.a, 1, env)
    [] OTHER ->
       /\ \A i \in 1..Len(e.a) : Sound(e.a[i], env)
       /\ CASE e.k = "pow" -> e.v >= 0 \/ (e.a[1].k = "num" /\ e.a[1].v # "0") \/ RLt(Margin, RAbs(Val(e.a[1], env)))
            [] e.k \in {"powr", "log", "sqrt"} -> RLt(Margin, Val(e.a[1], env))
            [] e.k \in {"exp", "sin", "cos", "tanh"} -> RLt(RAbs(Val(e.a[1], env)), "100")
            [] e.k = "tan" -> RLt(RAbs(Val(e.a[1], env)), "3/2")
            [] e.k = "sign" -> RLt(Margin, RAbs(Val(e.a[1], env)))
            [] OTHER -> TRUE
IteSound(a, i, env) == i <= Len(a) /\ CondSound(a[i], env)
                         /\ IF Holds(a[i], env) THEN Sound(a[i + 1], env) ELSE IteSound(a, i + 2, env)
CondSound(c, env) ==
  CASE c.k = "true" -> TRUE
    [] c.k \in {"not", "and", "or"} -> \A i \in 1..Len(c.a) : CondSound(c.a[i], env)
    [] OTHER -> /\ Sound(c.a[1], env) /\ Sound(c.a[2], env)
                /\ \/ RLt(Margin, RAbs(RSub(Val(c.a[1], env), Val(c.a[2], env))))
                   \/ c.a[1].k \in {"num", "sym"} /\ c.a[2].k \in {"num", "sym"}

\* size of what is added up to get the value (rounding errors are relative to it)
RECURSIVE Mag(_, _)
Mag(e, env) ==
  LET m(i) == Mag(e.a[i], env)
      ms == TLCEval([i \in 1..Len(e.a) |-> Mag(e.a[i], env)])
      v == RAbs(Val(e, env)) IN
  CASE e.k \in {"num", "sym"} -> v
    [] e.k = "add" -> RSum(ms)
    [] e.k = "mul" -> RProd(ms)
    [] e.k = "pow" /\ e.v >= 0 -> RPow(m(1), e.v)
    [] e.k = "pow" -> RMul(v, RPow(RDiv(m(1), RAbs(Val(e.a[1], env))), 0 - e.v))
    [] e.k = "ite" -> LET RECURSIVE W(_)
                          W(i) == IF i > Len(e.a) THEN "0" ELSE IF Holds(e.a[i], env) THEN Mag(e.a[i + 1], env) ELSE W(i + 2)
                      IN W(1)
    [] e.k \in {"exp", "powr"} -> RMul(v, RAdd("1", RSum(ms)))
    [] e.k = "log" -> RAdd(v, RDiv(m(1), RAbs(Val(e.a[1], env))))
    [] e.k = "tan" -> RMul(RAdd("1", RMul(v, v)), RAdd("1", m(1)))
    [] OTHER -> RAdd(v, RSum(ms))
Near(got, e, env) == RLe(RAbs(RSub(got, Val(e, env))), RMul("1/10000000000", RAdd("1", Mag(e, env))))

\* ------------------------------------------------------- numerical operations
\* arrays: [d: number of axes, v: rows] (a vector is a column, a number is one row)
Arr(d, v) == [d |-> d, v |-> v]
Map2(A, B, Op(_, _)) == TLCEval([i \in 1..Len(A) |-> [j \in 1..Len(A[i]) |-> Op(A[i][j], B[i][j])]])
Map1(A, Op(_)) == TLCEval([i \in 1..Len(A) |-> [j \in 1..Len(A[i]) |-> Op(A[i][j])]])
Wide(A) == IF A = <<>> THEN 0 ELSE Len(A[1])
Combine(A, B, Op(_, _)) ==
  IF A.d = B.d THEN Arr(A.d, Map2(A.v, B.v, Op))
  ELSE IF A.d = 0 THEN Arr(B.d, Map1(B.v, LAMBDA x : Op(A.v[1][1], x)))
  ELSE Arr(A.d, Map1(A.v, LAMBDA x : Op(x, B.v[1][1])))
Dot(A, B) == IF A.d = 0 \/ B.d = 0 THEN Combine(A, B, RMul)
             ELSE IF A.d = 2 THEN Arr(B.d, MatMul(A.v, B.v, IF B.d = 1 THEN 1 ELSE Wide(B.v)))
             ELSE Arr(0, <<<<RSum([i \in 1..Len(A.v) |-> RMul(A.v[i][1], B.v[i][1])])>>>>)
Norm(A) == Arr(0, <<<<RSqrt(RSum([i \in 1..Len(A.v) |-> RMul(A.v[i][1], A.v[i][1])]))>>>>)
RECURSIVE OpVal(_, _)
\* o: [op, a] or a name [op: "get", v] or a number [op: "num", v]
OpVal(o, env) ==
  LET x(i) == TLCEval(OpVal(o.a[i], env)) IN
  CASE o.op = "get" -> env[o.v]
    [] o.op = "num" -> Arr(0, <<<<o.v>>>>)
    [] o.op = "copy" -> x(1)
    [] o.op = "add" -> Combine(x(1), x(2), RAdd)
    [] o.op = "prod" -> Combine(x(1), x(2), RMul)
    [] o.op = "div" -> Combine(x(1), x(2), RDiv)
    [] o.op = "dot" -> Dot(x(1), x(2))
    [] o.op = "norm" -> Norm(x(1))
    [] o.op = "inv" -> LET A == x(1) IN Arr(2, SolveChecked(A.v, Eye(Len(A.v))))
    [] OTHER -> Assert(FALSE, <<"unknown operation", o.op>>)
=============================================================================
