-------------------------- MODULE CalculusMachine --------------------------
(***************************************************************************)
(* Random expressions, matrices and models for the symbolic calculus, and  *)
(* the laws the specified derivatives obey.                                *)
(***************************************************************************)
EXTENDS ExprMachine, Calculus
RECURSIVE Smooth(_)
\* no absolute values
Smooth(t) == [k |-> IF t.k = "abs" THEN "tanh" ELSE t.k, v |-> t.v, a |-> [i \in 1..Len(t.a) |-> Smooth(t.a[i])]]
T(d, r) == Smooth(Tree(d, r))
Everything == Letters \cup {"u1", "u2"}
AtPoint(r) == [x \in Everything |-> One(Points, Rnd(r, IF x = "u1" THEN 7 ELSE IF x = "u2" THEN 8 ELSE Index(x)))]
Leaf(r) == IF r % 3 = 0 THEN Num("0") ELSE Tree(0, Rnd(r, 2))
Entry(mode, r) ==
  CASE mode = 0 -> Num(One(<<"0", "1", "2", "-1", "1/2", "3">>, r))
    [] mode = 1 -> Leaf(r)
    [] OTHER -> Node(One(<<"add", "mul">>, r), "", <<Leaf(Rnd(r, 1)), Leaf(Rnd(r, 2))>>)
Mat(m, n, mode, r) == [i \in 1..m |-> [j \in 1..n |-> Entry(mode, Rnd(r, 11 * i + j))]]
Make2(r) ==
  LET p == Perm(Rnd(r, 40))
      d == Rnd(r, 42) % (Depth + 1)
      n == 1 + (Rnd(r, 43) % 3)
      nx == 1 + (Rnd(r, 44) % 3)
      nw == Rnd(r, 45) % 3
      nu == Rnd(r, 46) % 3
      k == 1 + (Rnd(r, 47) % 3)
      mode == Rnd(r, 48) % 3
      rm == Rnd(r, 49) % 4
      rn == Rnd(r, 50) % 4
  IN [f |-> [i \in 1..(1 + (Rnd(r, 41) % 3)) |-> T(d, Rnd(r, 60 + i))],
      vars |-> [i \in 1..n |-> p[i]], simple |-> ~Fancy /\ d <= 1,
      A |-> Mat(k, k, mode, Rnd(r, 70)), numeric |-> mode = 0,
      B |-> Mat(rm, rn, 1, Rnd(r, 71)), rows |-> rm, cols |-> rn,
      v |-> [i \in 1..rn |-> T(1, Rnd(r, 80 + i))], extra |-> Rnd(r, 72) % 5 = 0,
      vs |-> [j \in 1..(1 + (Rnd(r, 73) % 3)) |-> [i \in 1..(1 + (Rnd(r, 74) % 3)) |-> T(1, Rnd(r, 90 + 5 * j + i))]],
      m |-> [x |-> [i \in 1..nx |-> p[i]], w |-> [i \in 1..nw |-> p[nx + i]], u |-> [i \in 1..nu |-> <<"u1", "u2">>[i]],
             H |-> T(d, Rnd(r, 75)), z |-> [i \in 1..nw |-> T(d, Rnd(r, 76 + i))],
             M |-> Mat(nx + nw + nu, nx + nw + nu, 1, Rnd(r, 79))],
      pts |-> [q \in 1..3 |-> AtPoint(Rnd(r, 50 + q))]]
Next2 == ph < 1 /\ ph' = ph + 1 /\ \E r \in {RandomElement(1..65536)} : job' = TLCEval(Make2(r))

\* ---------------------------------------------------------------- lemmas
Ok(t, env) == Sound(t, env)
\* derivatives commute, are linear and agree with difference quotients
Shift(env, s, h) == [env EXCEPT ![s] = RAdd(@, h)]
Small == "1/100000"
Quotient(e, s, env) == RDiv(RSub(Val(e, Shift(env, s, Small)), Val(e, Shift(env, s, RNeg(Small)))), RMul("2", Small))
RECURSIVE KindsOf(_)
KindsOf(e) == {e.k} \cup UNION {KindsOf(e.a[i]) : i \in 1..Len(e.a)}
Derivatives ==
  ph = 1 => \A i \in 1..Len(job.f) : \A q \in 1..2 : \A j \in 1..Len(job.vars) :
     LET e == job.f[i]  env == job.pts[q]  s == job.vars[j]  D == Diff(e, s) IN
     (Ok(e, env) /\ Ok(D, env) /\ "ite" \notin KindsOf(e)) =>
        /\ LET g == Val(D, env)  h == Quotient(e, s, env) IN RLe(RAbs(RSub(g, h)), RMul("1/100000", RAdd("1", RAdd(Mag(e, env), Mag(D, env)))))
        /\ \A l \in 1..Len(job.vars) : LET DD == Diff(D, job.vars[l])  ED == Diff(Diff(e, job.vars[l]), s) IN
             (Ok(DD, env) /\ Ok(ED, env)) => Near(Val(DD, env), ED, env)
        /\ (s \notin Symbols(e) => D = N("0"))
Emit2 == ph = 1 => PrintT("GEN " \o ToJson(job))
=============================================================================
