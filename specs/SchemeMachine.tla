--------------------------- MODULE SchemeMachine ---------------------------
(***************************************************************************)
(* Random models, settings and inputs; for models with linear laws the      *)
(* machine also runs the scheme itself (one exact linear solution per step) *)
(* and checks what the scheme promises.                                     *)
(***************************************************************************)
EXTENDS Scheme, Json

CONSTANTS Pick(_),       \* S (explore) or one random element of S (generate)
          Linear,        \* only linear laws
          Dims,          \* set of <<nx, nw, ny>>
          Configs,       \* set of [grad, theta, split, fs]
          Len0,          \* number of time steps
          Rest           \* number of first steps with null input, from the null state

PickAll(S) == S
PickOne(S) == IF S = {} THEN {} ELSE {RandomElement(S)}

VARIABLES mdl, conf, ph, cnt, xs, fed
vars == <<mdl, conf, ph, cnt, xs, fed>>
Blank == [nx |-> 0, nw |-> 0, ny |-> 0, np |-> 0, no |-> 0, H |-> <<>>, z |-> <<>>, M |-> <<>>, o |-> <<>>]
NoCf == [grad |-> "", theta |-> "0", split |-> FALSE, fs |-> "1"]
SInit == mdl = Blank /\ conf = NoCf /\ ph = "dims" /\ cnt = 1 /\ xs = <<>> /\ fed = <<>>

XV(i) == <<"x", i>>
Mono(c, s) == [c |-> c, m |-> s]
Pos == {"1", "2", "1/2", "3"}
Sgn == {"1", "-1", "1/2", "-2"}

\* one storage: quadratic, with an offset, quartic, cubic, coupled to a previous one
HTerms(i) ==
  LET a == Mono("1", <<XV(i), XV(i)>>)
      quad == {<<Mono(c, <<XV(i), XV(i)>>)>> : c \in {"1/2", "1", "3/2"}}
      aff == {<<a, Mono(c, <<XV(i)>>)>> : c \in {"1/2", "-1"}}
      nonl == {<<a, Mono("1/2", <<XV(i), XV(i), XV(i), XV(i)>>)>>, <<a, Mono("1/3", <<XV(i), XV(i), XV(i)>>)>>,
               <<a, Mono("1/4", <<XV(i), XV(i), XV(i), XV(i)>>), Mono("1/5", <<XV(i)>>)>>}
      cl(j) == {<<a, Mono("1/3", <<XV(j), XV(i)>>)>>, <<a, Mono("-1/2", <<XV(j), XV(i)>>)>>}
      cn(j) == {<<a, Mono("1/2", <<XV(j), XV(j), XV(i), XV(i)>>)>>, <<a, Mono("1/4", <<XV(j), XV(i), XV(i)>>)>>,
                <<a, Mono("1/4", <<XV(j), XV(j), XV(i), XV(i)>>), Mono("1/3", <<XV(j), XV(i)>>)>>}
  IN quad \cup (IF Linear THEN UNION {cl(j) : j \in 1..(i - 1)}
                ELSE aff \cup nonl \cup UNION {cl(j) \cup cn(j) : j \in 1..(i - 1)})
ZTerms(i) ==
  LET W == <<"w", i>>
      lin == {<<Mono(c, <<W>>)>> : c \in Pos}
      nonl == {<<Mono("1", <<W>>), Mono("1/2", <<W, W, W>>)>>, <<Mono("3", <<W>>), Mono("1/32", <<W, W>>)>>}
      st0 == IF mdl.nx = 0 THEN {} ELSE {<<Mono("1", <<W>>), Mono("1/2", <<XV(1), XV(1), W>>)>>,
                                       <<Mono("2", <<W>>), Mono("1/3", <<XV(mdl.nx), W>>)>>}
      gr == IF mdl.nx = 0 THEN {} ELSE {<<Mono("1", <<W>>), Mono("1/4", <<<<"g", 1>>, <<"g", 1>>, W>>)>>,
                                      <<Mono("1", <<W>>), Mono("1/8", <<<<"g", mdl.nx>>, W>>), Mono("1/4", <<XV(1), W>>)>>}
      par == {<<Mono("1", <<W>>), Mono("1/2", <<<<"p", 1>>, W>>)>>}
      ob == {<<Mono("1", <<W>>), Mono("1/3", <<<<"o", 1>>, W>>)>>}
      cw == IF i = 1 THEN {} ELSE {<<Mono("1", <<W>>), Mono("1/3", <<<<"w", i - 1>>>>)>>}
      cst == {<<Mono("1", <<W>>), Mono("1/4", <<>>)>>}
  IN IF Linear THEN lin \cup cw ELSE lin \cup nonl \cup st0 \cup gr \cup par \cup ob \cup cw \cup cst
\* one coefficient of J, above the diagonal
JTerms(i, j) ==
  LET n == mdl.nx + mdl.nw
      con == {<<>>} \cup {<<Mono(c, <<>>)>> : c \in Sgn}
      mod == IF mdl.nx = 0 \/ i > n THEN {}
             ELSE {<<Mono("1", <<>>), Mono("1/2", <<XV(1)>>)>>, <<Mono("-1", <<>>), Mono("1/3", <<XV(mdl.nx)>>)>>,
                   <<Mono("1", <<>>), Mono("1/2", <<<<"p", 1>>>>)>>, <<Mono("1/2", <<XV(1)>>)>>}
  IN IF Linear THEN {<<>>} \cup {<<Mono(c, <<>>)>> : c \in {"1", "-1", "2"}} ELSE con \cup mod
RDiag == {<<>>, <<Mono("-1/2", <<>>)>>, <<Mono("-1", <<>>)>>}

NegPoly(p) == [i \in 1..Len(p) |-> [p[i] EXCEPT !.c = RNeg(@)]]
N(mm) == mm.nx + mm.nw + mm.ny
Pairs(mm) == {q \in (1..N(mm)) \X (1..N(mm)) : q[1] < q[2]}
Nth(i) == CHOOSE q \in Pairs(mdl) : Cardinality({r \in Pairs(mdl) : r[1] < q[1] \/ (r[1] = q[1] /\ r[2] < q[2])}) = i - 1

Keep == UNCHANGED <<conf, xs, fed>>
Build ==
  CASE ph = "dims" -> /\ \E d \in Pick(Dims) :
                           mdl' = [Blank EXCEPT !.nx = d[1], !.nw = d[2], !.ny = d[3], !.np = IF Linear THEN 0 ELSE 1,
                                 !.no = IF Linear THEN 0 ELSE 1,
                                 !.o = IF Linear THEN <<>> ELSE <<<<Mono("1/2", <<IF d[1] > 0 THEN XV(1) ELSE <<"p", 1>>>>), Mono("1", <<<<"p", 1>>>>)>>>>,
                                 !.M = [i \in 1..(d[1] + d[2] + d[3]) |-> [j \in 1..(d[1] + d[2] + d[3]) |-> <<>>]]]
                      /\ ph' = "H" /\ cnt' = 1 /\ Keep
    [] ph = "H" -> IF cnt > mdl.nx THEN ph' = "z" /\ cnt' = 1 /\ UNCHANGED mdl /\ Keep
                   ELSE /\ \E t \in Pick(HTerms(cnt)) : mdl' = [mdl EXCEPT !.H = @ \o t]
                        /\ cnt' = cnt + 1 /\ UNCHANGED ph /\ Keep
    [] ph = "z" -> IF cnt > mdl.nw THEN ph' = "J" /\ cnt' = 1 /\ UNCHANGED mdl /\ Keep
                   ELSE /\ \E t \in Pick(ZTerms(cnt)) : mdl' = [mdl EXCEPT !.z = Append(@, t)]
                        /\ cnt' = cnt + 1 /\ UNCHANGED ph /\ Keep
    [] ph = "J" -> IF cnt > Cardinality(Pairs(mdl)) THEN ph' = "R" /\ cnt' = 1 /\ UNCHANGED mdl /\ Keep
                   ELSE /\ LET q == Nth(cnt) IN \E t \in Pick(JTerms(q[1], q[2])) :
                              mdl' = [mdl EXCEPT !.M[q[1]][q[2]] = t, !.M[q[2]][q[1]] = NegPoly(t)]
                        /\ cnt' = cnt + 1 /\ UNCHANGED ph /\ Keep
    [] ph = "R" -> IF cnt > mdl.nx THEN ph' = "cfg" /\ cnt' = 1 /\ UNCHANGED mdl /\ Keep
                   ELSE /\ \E t \in Pick(RDiag) : mdl' = [mdl EXCEPT !.M[cnt][cnt] = t]
                        /\ cnt' = cnt + 1 /\ UNCHANGED ph /\ Keep
    [] ph = "cfg" -> /\ \E c \in Pick(Configs) : conf' = c
                     /\ ph' = "init" /\ cnt' = 1 /\ UNCHANGED <<mdl, xs, fed>>
    [] ph = "init" -> IF cnt > mdl.nx THEN ph' = "run" /\ cnt' = 1 /\ UNCHANGED <<mdl, conf, xs, fed>>
                      ELSE /\ \E v \in Pick(IF Rest > 0 THEN {"0"} ELSE IF Linear THEN {"0", "1"} ELSE {"0", "1/2", "-1/3", "1", "-1/2", "1/4"}) : xs' = Append(xs, v)
                           /\ cnt' = cnt + 1 /\ UNCHANGED <<mdl, conf, ph, fed>>
    [] OTHER -> FALSE

\* the inputs of one step (the next state is left to the implementation)
Us(n) == IF cnt <= Rest THEN {[i \in 1..n |-> "0"]} ELSE IF Linear THEN {[i \in 1..n |-> v] : v \in {"0", "1"}}
         ELSE {[i \in 1..n |-> "0"], [i \in 1..n |-> IF i = 1 THEN "1" ELSE "-1/2"], [i \in 1..n |-> IF i = 1 THEN "-1/2" ELSE "0"],
               [i \in 1..n |-> "1/4"]}
Ps == {[i \in 1..mdl.np |-> v] : v \in {"0", "1/2", "1/4"}}
Feed == /\ ph = "run" /\ cnt <= Len0
        /\ \E u \in Pick(Us(mdl.ny)), p \in Pick(Ps) : fed' = Append(fed, [u |-> u, p |-> p])
        /\ cnt' = cnt + 1 /\ UNCHANGED <<mdl, conf, ph, xs>>

\* the scheme itself, for linear laws: the residual is affine in (dx, w)
Unit(n, i) == [j \in 1..n |-> IF i = j THEN "1" ELSE "0"]
Solution(u, p) ==
  LET n == mdl.nx + mdl.nw
      r0 == TLCEval(Residual(mdl, conf, xs, u, p, [j \in 1..n |-> "0"]))
      C == TLCEval([j \in 1..n |-> Residual(mdl, conf, xs, u, p, Unit(n, j))])
      A == TLCEval([i \in 1..n |-> [j \in 1..n |-> RSub(C[j][i], r0[i])]])
  IN SolveChecked(A, TLCEval([i \in 1..n |-> <<RNeg(r0[i])>>]))
Run == /\ ph = "run" /\ cnt <= Len0
       /\ \E u \in Pick(Us(mdl.ny)), p \in Pick(Ps) :
            LET s == TLCEval(Solution(u, p)) IN
            IF s = <<>> THEN ph' = "singular" /\ UNCHANGED <<mdl, conf, xs, fed, cnt>>
            ELSE LET v == TLCEval([i \in 1..Len(s) |-> s[i][1]])
                     dx == SubSeq(v, 1, mdl.nx)  w == SubSeq(v, mdl.nx + 1, Len(v))
                 IN /\ xs' = VecAdd(xs, dx)
                    /\ fed' = Append(fed, [u |-> u, p |-> p, x |-> xs, dx |-> dx, w |-> w])
                    /\ cnt' = cnt + 1 /\ UNCHANGED <<mdl, conf, ph>>

GenNext == Build \/ Feed
RunNext == Build \/ Run

\* ------------------------------------------------------------- promises
Here == fed[Len(fed)]
Out(s) == Step(mdl, conf, s.x, s.u, s.p, s.dx, s.w)
\* the computed step solves the equations
Solves == (Linear /\ ph = "run" /\ fed # <<>>) =>
   LET s == Here  r == TLCEval(Residual(mdl, conf, s.x, s.u, s.p, s.dx \o s.w)) IN \A i \in 1..Len(r) : r[i] = "0"
\* the power balance is exact with the discrete gradient (and, laws being linear, with the midpoint and the trapezoid)
Balance == (Linear /\ ph = "run" /\ fed # <<>> /\ (conf.grad # "theta" \/ conf.theta = "1/2")) =>
   LET s == Here  o == TLCEval(Out(s)) IN
     RMul(conf.fs, RSub(Energy(mdl, VecAdd(s.x, s.dx)), Energy(mdl, s.x)))
       = RNeg(RSum(<<RDot(s.w, o.z), RDot(s.u, o.y), Friction(o.M, o.a)>>))
Passive == (Linear /\ ph = "run" /\ fed # <<>> /\ (conf.grad # "theta" \/ conf.theta \in {"1/2"})) =>
   LET s == Here  o == TLCEval(Out(s)) IN
     (\A i \in 1..mdl.ny : s.u[i] = "0") /\ RLe("0", RDot(s.w, o.z))
        => RLe(Energy(mdl, VecAdd(s.x, s.dx)), Energy(mdl, s.x))
\* any energy, any states: the discrete gradient is one
Probe(i) == LET h(v) == ((v * 7 + 3) % 11) - 5 IN [j \in 1..mdl.nx |-> RDiv(RInt(h(i * 3 + j)), RInt(2 + ((i + j) % 3)))]
Zero == [j \in 1..mdl.nx |-> "0"]
DiscreteGradient == (ph = "z" /\ cnt = 1) =>
   \A i \in 1..3 : LET a == Probe(i)  d == Probe(i + 5) IN
      /\ \A S \in {Coupled(mdl), CoupledNL(mdl)} : RDot(Discrete(mdl, a, d, S), d) = RSub(Energy(mdl, VecAdd(a, d)), Energy(mdl, a))
      /\ Discrete(mdl, a, Zero, Coupled(mdl)) = Grad(mdl, a)
      /\ GradTheta(mdl, a, d, "0") = Grad(mdl, a)
      /\ GradTrapez(mdl, a, Zero) = Grad(mdl, a)
Emit == (ph = "run" /\ cnt = Len0 + 1) => PrintT("GEN " \o ToJson([m |-> mdl, cf |-> conf, x0 |-> xs, st |-> fed]))
=============================================================================
