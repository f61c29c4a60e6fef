----------------------------- MODULE Components -----------------------------
(***************************************************************************)
(* The documented components of the dictionaries.                          *)
(*                                                                         *)
(* A component c is [d: dictionary, c: class, l: label, n: terminals,      *)
(* p: function from parameter names to values, t: type of a source].       *)
(* Comp(c) gives its energy H and its edges; an edge is                    *)
(*   [l: label, a, b: nodes, ty: type, ct: control, ...laws]               *)
(*  storage: g, the gradient of the energy                                 *)
(*  dissipative: e and f, the law when the effort (the flux) is the        *)
(*      variable; only the one of the control when it is imposed           *)
(*  port: nothing;  connector: ratio and kind                              *)
(* Laws are expression trees (see Expr) over the labels of edges.          *)
(* Internal nodes are named "~1", "~2", ... : their names are free.        *)
(***************************************************************************)
EXTENDS Expr
Datum == "#"
Num(v) == [k |-> "num", v |-> v, a |-> <<>>]
Sym(v) == [k |-> "sym", v |-> v, a |-> <<>>]
Node(k, v, a) == [k |-> k, v |-> v, a |-> a]
Add(s) == Node("add", "", s)
Mul(s) == Node("mul", "", s)
Inv(t) == Node("pow", 0 - 1, <<t>>)
Div(s, t) == Mul(<<s, Inv(t)>>)
Pow(t, n) == Node("pow", n, <<t>>)
Neg(t) == Mul(<<Num("-1"), t>>)
Fun(k, t) == Node(k, "", <<t>>)
PowR(t, s) == Node("powr", "", <<t, s>>)
If(c, s, t) == Node("ite", "", <<c, s, Node("true", "", <<>>), t>>)
Gt(s, t) == Node("gt", "", <<s, t>>)
Zero == Num("0")
One1 == Num("1")
Gmin == Num("1/1000000000000")
Pi == RPi

Sto(l, a, b, ct, g) == [l |-> l, a |-> a, b |-> b, ty |-> "storage", ct |-> ct, g |-> g]
Dis(l, a, b, ct, e, f) == [l |-> l, a |-> a, b |-> b, ty |-> "dissipative", ct |-> ct, e |-> e, f |-> f]
Por(l, a, b, ct) == [l |-> l, a |-> a, b |-> b, ty |-> "port", ct |-> ct]
Con(l, a, b, kind, link, ratio) == [l |-> l, a |-> a, b |-> b, ty |-> "connector", ct |-> "?", kind |-> kind, link |-> link, ratio |-> ratio]
Res(H, edges) == [H |-> H, edges |-> edges, obs |-> <<>>]
Only(e) == Res(Zero, <<e>>)

\* linear laws
Quad(c, a, b, ct, k) == LET x == "x" \o c.l IN
  Res(Mul(<<k, Pow(Sym(x), 2), Num("1/2")>>), <<Sto(x, a, b, ct, Mul(<<k, Sym(x)>>))>>)
Ohm(l, a, b, r) == Dis(l, a, b, "?", Div(Sym(l), r), Mul(<<r, Sym(l)>>))
Conductance(l, a, b, g) == Dis(l, a, b, "?", Mul(<<g, Sym(l)>>), Div(Sym(l), g))

\* saturating law: g = k (x + s dHsat), Hsat' = 4/(4 - pi) (tan t - t), t = pi x / (2 xs)
Sat(c, ct, k, s, xs) ==
  LET x == "x" \o c.l
      t == Div(Mul(<<Num(Pi), Sym(x)>>), Mul(<<Num("2"), xs>>))
      four == Num(RSub("4", Pi))
      hs == Neg(Mul(<<Num("8"), xs, Inv(Mul(<<Num(Pi), four>>)), Add(<<Mul(<<Num("1/2"), Pow(t, 2)>>), Fun("log", Fun("cos", t))>>)>>))
      gs == Mul(<<Num("4"), Inv(four), Add(<<Fun("tan", t), Neg(t)>>)>>)
  IN Res(Mul(<<k, Add(<<Mul(<<Num("1/2"), Pow(Sym(x), 2)>>), Mul(<<s, hs>>)>>)>>),
         <<Sto(x, c.n[1], c.n[2], ct, Mul(<<k, Add(<<Sym(x), Mul(<<s, gs>>)>>)>>))>>)
Cubic(c, ct) ==
  LET x == "x" \o c.l  q == Div(Sym(x), Num(c.p.xref)) IN
  Res(Add(<<Mul(<<Num(c.p.F1), Num("1/2"), q, Sym(x)>>), Mul(<<Num(c.p.F3), Num("1/4"), Pow(q, 3), Sym(x)>>)>>),
      <<Sto(x, c.n[1], c.n[2], ct, Add(<<Mul(<<Num(c.p.F1), q>>), Mul(<<Num(c.p.F3), Pow(q, 3)>>)>>))>>)
\* felt: elastic force F c^B, damping (A L / B) c^(B - 1) dq/dt, with c = max(q, 0) / L
FeltOf(c, ct, q, w) ==
  LET cr == Div(Sym(q), Num(c.p.L))
      pos == Gt(Sym(q), Zero)
      B == c.p.B
  IN [H |-> If(pos, Mul(<<Num(RDiv(RMul(c.p.L, c.p.F), RAdd(B, "1"))), PowR(cr, Num(RAdd(B, "1")))>>), Zero),
      g |-> If(pos, Mul(<<Num(c.p.F), PowR(cr, Num(B))>>), Zero),
      z |-> If(pos, Mul(<<Num(RDiv(RMul(c.p.A, c.p.L), B)), PowR(cr, Num(RSub(B, "1"))), Sym(w)>>), Zero)]
Felt(c, ct, mid) ==
  LET q == "q" \o c.l  w == "dtq" \o c.l  L == FeltOf(c, ct, q, w) IN
  Res(L.H, <<Sto(q, c.n[1], IF mid THEN "~1" ELSE c.n[2], ct, L.g),
             Dis(w, IF mid THEN "~1" ELSE c.n[1], c.n[2], ct, L.z, L.z)>>)

Shockley(is, v, w) == Mul(<<is, Add(<<Fun("exp", Div(w, v)), Num("-1")>>)>>)
Diode(c) ==
  LET is == Num(c.p.Is)  v == Mul(<<Num(c.p.mu), Num(c.p.v0)>>)  w == "w" \o c.l IN
  Res(Zero, <<Dis(w, c.n[1], "~1", "?", Shockley(is, v, Sym(w)), Mul(<<v, Fun("log", Add(<<Div(Sym(w), is), One1>>))>>)),
              Ohm(w \o "_R", "~1", c.n[2], Num(c.p.R)),
              Conductance(w \o "_gmin", c.n[1], "~1", Gmin)>>)
\* Ebers-Moll, NPN: currents from the base to the collector and to the emitter
Bjt(c) ==
  LET v == Mul(<<Num(c.p.mu), Num(c.p.Vt)>>)  is == Num(c.p.Is)
      bc == "w" \o c.l \o "bc"  be == "w" \o c.l \o "be"
      ir == Add(<<Shockley(is, v, Sym(bc)), Mul(<<Gmin, Sym(bc)>>)>>)
      if == Add(<<Shockley(is, v, Sym(be)), Mul(<<Gmin, Sym(be)>>)>>)
      over(b) == Num(RAdd("1", RDiv("1", b)))
  IN Res(Zero, <<Dis(bc, "~1", "~2", "e", Add(<<Mul(<<over(c.p.betaR), ir>>), Neg(if)>>), Zero),
                 Dis(be, "~1", "~3", "e", Add(<<Mul(<<over(c.p.betaF), if>>), Neg(ir)>>), Zero),
                 Ohm("w" \o c.l \o "rb", c.n[1], "~1", Num(c.p.Rb)),
                 Ohm("w" \o c.l \o "rc", c.n[2], "~2", Num(c.p.Rc)),
                 Ohm("w" \o c.l \o "re", c.n[3], "~3", Num(c.p.Re))>>)
\* Koren: E = (Vpk / Kp) log(1 + exp(Kp (1 / mu + (Vgk + Vct) / sqrt(Kvb + Vpk^2)))), Ipk = E^Ex (1 + sgn E) / Kg
\* grid: Igk = (Vgk - Va) / Rgk beyond the threshold
Triode(c) ==
  LET pk == "w" \o c.l \o "pk"  gk == "w" \o c.l \o "gk"
      e3 == Mul(<<Num(c.p.Kp), Add(<<Num(RDiv("1", c.p.mu)),
              Div(Add(<<Sym(gk), Num(c.p.Vct)>>), Fun("sqrt", Add(<<Num(c.p.Kvb), Pow(Sym(pk), 2)>>)))>>)>>)
      E == Mul(<<Sym(pk), Num(RDiv("1", c.p.Kp)), Fun("log", Add(<<One1, Fun("exp", e3)>>))>>)
      leak == Mul(<<Gmin, Add(<<Sym(pk), Sym(gk)>>)>>)
      ipk == If(Gt(Sym(pk), Zero), Mul(<<PowR(E, Num(c.p.Ex)), Num(RDiv("2", c.p.Kg))>>), Zero)
      igk == If(Gt(Sym(gk), Num(c.p.Va)), Mul(<<Add(<<Sym(gk), Num(RNeg(c.p.Va))>>), Num(RDiv("1", c.p.Rgk))>>), Zero)
  IN Res(Zero, <<Dis(pk, c.n[2], c.n[1], "e", Add(<<ipk, leak>>), Zero), Dis(gk, c.n[3], c.n[1], "e", Add(<<igk, leak>>), Zero)>>)
Potentiometer(c) ==
  LET a == PowR(Num(c.p.A), Num(c.p.E))  w(i) == "w" \o c.l \o i IN
  Res(Zero, <<Ohm(w("1"), c.n[1], c.n[2], Add(<<One1, Mul(<<Num(c.p.R), a>>)>>)),
              Ohm(w("2"), c.n[2], c.n[3], Add(<<One1, Mul(<<Num(c.p.R), Add(<<One1, Neg(a)>>)>>)>>))>>)
Source(c, one) ==
  LET a == IF one \/ Len(c.n) = 1 THEN Datum ELSE c.n[1]
      b == IF one \/ Len(c.n) = 1 THEN c.n[1] ELSE c.n[2]
      \* a source of the effort of the dictionary is an edge whose flux is the output
      effort == \/ c.d = "electronics" /\ c.t = "voltage"
                \/ c.d = "mechanics" /\ c.t = "velocity"
                \/ c.d = "mechanics_dual" /\ c.t = "force"
                \/ c.d = "magnetics" /\ c.t = "mmf"
                \/ c.d = "thermics" /\ c.t = "temperature"
  IN Only(Por("y" \o c.l, a, b, IF effort THEN "f" ELSE "e"))
\* heat transfer: the temperatures of the nodes are the dissipation variables
Transfer(c) ==
  LET w(i) == "w" \o c.l \o "_" \o i
      d == Add(<<Sym(w("0")), Neg(Sym(w("1")))>>)
      z(s, i) == Mul(<<Num(s), Num(c.p.R), d, Inv(Sym(w(i)))>>) IN
  Res(Zero, <<Dis(w("0"), Datum, c.n[1], "e", z("1", "0"), Zero), Dis(w("1"), Datum, c.n[2], "e", z("-1", "1"), Zero)>>)
Connector(c, kind) ==
  LET y(i) == "y" \o c.l \o i IN
  Res(Zero, <<Con(y("1"), c.n[1], c.n[2], kind, y("2"), Num(c.p.alpha)), Con(y("2"), c.n[3], c.n[4], kind, y("1"), Num(c.p.alpha))>>)
\* piecewise linear interpolation of the points (X, Y), extended by its first and last slopes
Pwl(X, Y, x) ==
  LET n == Len(X)
      slope(i) == RDiv(RSub(Y[i + 1], Y[i]), RSub(X[i + 1], X[i]))
      line(i) == Add(<<Num(Y[i]), Mul(<<Num(slope(i)), Add(<<x, Num(RNeg(X[i]))>>)>>)>>)
      RECURSIVE From(_)
      From(i) == IF i = n - 1 THEN line(i) ELSE If(Gt(x, Num(X[i + 1])), From(i + 1), line(i))
  IN From(1)
\* its integral from zero, Z being the index of the point (0, 0)
PwlInt(X, Y, Z, x) ==
  LET n == Len(X)
      slope(i) == RDiv(RSub(Y[i + 1], Y[i]), RSub(X[i + 1], X[i]))
      area(i) == RMul(RSub(X[i + 1], X[i]), RMul("1/2", RAdd(Y[i], Y[i + 1])))
      at[i \in 1..n] == IF i = Z THEN "0" ELSE IF i > Z THEN RAdd(at[i - 1], area(i - 1)) ELSE RSub(at[i + 1], area(i))
      part(i) == LET h == Add(<<x, Num(RNeg(X[i]))>>) IN
                 Add(<<Num(at[i]), Mul(<<Num(Y[i]), h>>), Mul(<<Num(RMul("1/2", slope(i))), Pow(h, 2)>>)>>)
      RECURSIVE From(_)
      From(i) == IF i = n - 1 THEN part(i) ELSE If(Gt(x, Num(X[i + 1])), From(i + 1), part(i))
  IN From(1)
PwlDis(c) == LET w == "w" \o c.l  z == Pwl(c.X, c.Y, Sym(w)) IN Only(Dis(w, c.n[1], c.n[2], c.t, z, z))
PwlSto(c) == LET x == "x" \o c.l IN
  Res(PwlInt(c.X, c.Y, c.Z, Sym(x)), <<Sto(x, c.n[1], c.n[2], c.t, Pwl(c.X, c.Y, Sym(x)))>>)

Heat(c) == LET x == "x" \o c.l  T == Mul(<<Num(c.p.T0), Fun("exp", Div(Sym(x), Num(c.p.C)))>>) IN
  Res(Mul(<<Num(c.p.C), T>>), <<Sto(x, Datum, c.n[1], "f", T)>>)
Observer(c) == LET x == "x" \o c.l IN
  [Quad(c, c.n[1], c.n[2], "e", Gmin) EXCEPT !.obs = <<<<"q_" \o c.l, Sym(x)>>, <<"dtq_" \o c.l, Mul(<<Sym("d" \o x), Sym("F_S")>>)>>>>]

\* a ball moving in front of a magnet and a coil: the flux seen by the coil depends on the position q of the ball,
\*   f(q) = 2 Rb^2 Rp ((f1 - 2 Lh^2) / f1^2 - (f2 - 2 Lh^2) / f2^2),  f1, f2 = (q -+ Rp + Lv)^2 + Lh^2
\* (observers give q and its rate); the magnetic capacitor of the coil stands between two gyrators of ratios 1 / (f dq/dt) and Ncoil
Pickup(c) ==
  LET o == [c EXCEPT !.l = c.l \o "OBS", !.n = <<Datum, c.n[1]>>]
      O == Observer(o)
      C == Quad([c EXCEPT !.l = c.l \o "Ccoil"], Datum, "~2", "f", Inv(Num(c.p.Ccoil)))
      q == Sym("x" \o o.l)
      lh == Num(RMul(c.p.Lh, c.p.Lh))
      d(s) == Add(<<Pow(Add(<<q, Num(RMul(s, c.p.Rp)), Num(c.p.Lv)>>), 2), lh>>)
      t(s) == Mul(<<Add(<<d(s), Mul(<<Num("-2"), lh>>)>>), Pow(d(s), 0 - 2)>>)
      f == Mul(<<Num(RMul("2", RMul(RMul(c.p.Rb, c.p.Rb), c.p.Rp))), Add(<<t("-1"), Neg(t("1"))>>), Sym("d" \o "x" \o o.l), Sym("F_S")>>)
      g(n, i) == "y" \o c.l \o n \o i
      gyr(n, a, b, e, h, r) == <<Con(g(n, "1"), a, b, "gyrator", g(n, "2"), r), Con(g(n, "2"), e, h, "gyrator", g(n, "1"), r)>>
  IN [H |-> Add(<<O.H, C.H>>), obs |-> O.obs,
      edges |-> <<Por("y" \o c.l \o "Magnet", Datum, "~1", "f")>> \o O.edges \o C.edges
                \o gyr("MecToMag", Datum, "~2", Datum, "~1", Inv(f)) \o gyr("MagToElec", Datum, "~2", c.n[2], c.n[3], Num(c.p.Ncoil))]

Comp(c) ==
  LET is(d, k) == c.d = d /\ c.c = k
      two(d) == c.n[1]
      k(p) == Num(c.p[p])
      quad(ct, v) == Quad(c, c.n[1], c.n[2], ct, v)
  IN
  CASE is("electronics", "Capacitor") -> quad("f", Inv(k("C")))
    [] is("electronics", "Inductor") -> quad("e", Inv(k("L")))
    [] is("electronics", "Resistor") -> Only(Ohm("w" \o c.l, c.n[1], c.n[2], k("R")))
    [] is("electronics", "Potentiometer") -> Potentiometer(c)
    [] is("electronics", "Diode") -> Diode(c)
    [] is("electronics", "Bjt") -> Bjt(c)
    [] is("electronics", "Triode") -> Triode(c)
    [] is("magnetics", "Capacitor") -> quad("f", Inv(k("C")))
    [] is("magnetics", "Capacitorsat") -> Sat(c, "f", Inv(k("C0")), k("Csat"), k("phisat"))
    [] is("magnetics", "Resistor") -> Only(Ohm("w" \o c.l, c.n[1], c.n[2], k("R")))
    [] is("mechanics", "Mass") -> Quad(c, Datum, c.n[1], "f", Inv(k("M")))
    [] is("mechanics", "Stiffness") -> quad("e", k("K"))
    [] is("mechanics", "Damper") -> Only(Conductance("w" \o c.l, c.n[1], c.n[2], k("A")))
    [] is("mechanics", "Springcubic") -> Cubic(c, "e")
    [] is("mechanics", "Springsat") -> Sat(c, "e", k("K0"), k("Ksat"), k("xsat"))
    [] is("mechanics", "Felt") -> Felt(c, "e", FALSE)
    [] is("mechanics_dual", "Mass") -> quad("e", Inv(k("M")))
    [] is("mechanics_dual", "Stiffness") -> quad("f", k("K"))
    [] is("mechanics_dual", "Damper") -> Only(Ohm("w" \o c.l, c.n[1], c.n[2], k("A")))
    [] is("mechanics_dual", "Springcubic") -> Cubic(c, "f")
    [] is("mechanics_dual", "Springsat") -> Sat(c, "f", k("K0"), k("Ksat"), k("xsat"))
    [] is("mechanics_dual", "Felt") -> Felt(c, "f", TRUE)
    [] is("thermics", "Capacitor") -> Heat(c)
    [] is("thermics", "Source") -> LET r == Source(c, TRUE) IN
         IF c.t = "temperature" THEN [r EXCEPT !.obs = <<<<"gx" \o c.l, Sym("u" \o c.l)>>>>] ELSE r
    [] is("thermics", "Transfer") -> Transfer(c)
    [] c.c = "Source" -> Source(c, FALSE)
    [] is("connectors", "Gyrator") -> Connector(c, "gyrator")
    [] is("connectors", "Transformer") -> Connector(c, "transformer")
    [] is("pwl", "Storage") -> PwlSto(c)
    [] is("pwl", "Dissipative") -> PwlDis(c)
    [] is("edges", "Observerec") -> Observer(c)
    [] is("transducers", "Pickup") -> Pickup(c)
    [] OTHER -> Assert(FALSE, <<"unknown component", c>>)

\* ---------------------------------------------------------------- properties
Small == "1/1000000000"
Labels(r) == {r.edges[i].l : i \in 1..Len(r.edges)}
At(r, env) == [x \in DOMAIN env |-> env[x]]
\* the gradient is the derivative of the energy
Move(env, x, h) == [env EXCEPT ![x] = RAdd(env[x], h)]
Step1 == "1/1048576"
Gradient(r, env) ==
  \A i \in 1..Len(r.edges) : LET e == r.edges[i] IN
    e.ty = "storage" /\ Sound(e.g, env) =>
      LET h == RMul(Step1, RMax(RAbs(env[e.l]), "1/16"))
          up == Val(r.H, Move(env, e.l, h))
          dn == Val(r.H, Move(env, e.l, RNeg(h)))
          g == Val(e.g, env)
      IN RLe(RAbs(RSub(RDiv(RSub(up, dn), RMul("2", h)), g)), RMul("1/10000", RAdd("1/10", RAbs(g))))
\* dissipated power, given the control of every edge
Power(r, env, ct) ==
  RSum([i \in 1..Len(r.edges) |-> LET e == r.edges[i] IN
          IF e.ty # "dissipative" THEN "0"
          ELSE RMul(env[e.l], Val(IF (IF e.ct = "?" THEN ct ELSE e.ct) = "e" THEN e.e ELSE e.f, env))])
LawSound(r, env, ct) == \A i \in 1..Len(r.edges) : LET e == r.edges[i] IN
   e.ty = "dissipative" => Sound(IF (IF e.ct = "?" THEN ct ELSE e.ct) = "e" THEN e.e ELSE e.f, env)
Passive(r, env) == /\ Sound(r.H, env) => RLe(RNeg(Small), Val(r.H, env))
                   /\ \A ct \in {"e", "f"} : LawSound(r, env, ct) => RLe(RNeg(Small), Power(r, env, ct))
\* the two laws of an edge of free control are inverse of each other
Inverse(r, env) ==
  \A i \in 1..Len(r.edges) : LET e == r.edges[i] IN
    e.ty = "dissipative" /\ e.ct = "?" /\ Sound(e.e, env) =>
       LET v == Val(e.e, env)  back == [env EXCEPT ![e.l] = v] IN
       Sound(e.f, back) => RLe(RAbs(RSub(Val(e.f, back), env[e.l])), RMul("1/1000000", RAdd("1", RAbs(env[e.l]))))
=============================================================================
