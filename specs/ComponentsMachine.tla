------------------------- MODULE ComponentsMachine -------------------------
(***************************************************************************)
(* Random components, values, forms of parameters and operating points.    *)
(***************************************************************************)
EXTENDS Components, Json
CONSTANT Only2   \* two components in one graph
V1 == <<"1", "1/2", "2", "3/2", "5/4", "3", "3/4">>
Cat == <<
  [d |-> "electronics", c |-> "Capacitor", p |-> <<"C">>, n |-> 2], [d |-> "electronics", c |-> "Inductor", p |-> <<"L">>, n |-> 2],
  [d |-> "electronics", c |-> "Resistor", p |-> <<"R">>, n |-> 2], [d |-> "electronics", c |-> "Potentiometer", p |-> <<"R", "A", "E">>, n |-> 3],
  [d |-> "electronics", c |-> "Diode", p |-> <<"Is", "mu", "R", "v0">>, n |-> 2],
  [d |-> "electronics", c |-> "Bjt", p |-> <<"Is", "betaR", "betaF", "Vt", "mu", "Rb", "Rc", "Re">>, n |-> 3],
  [d |-> "electronics", c |-> "Triode", p |-> <<"mu", "Ex", "Kg", "Kp", "Kvb", "Vct", "Va", "Rgk">>, n |-> 3],
  [d |-> "magnetics", c |-> "Capacitor", p |-> <<"C">>, n |-> 2], [d |-> "magnetics", c |-> "Capacitorsat", p |-> <<"C0", "Csat", "phisat">>, n |-> 2],
  [d |-> "magnetics", c |-> "Resistor", p |-> <<"R">>, n |-> 2],
  [d |-> "mechanics", c |-> "Mass", p |-> <<"M">>, n |-> 1], [d |-> "mechanics", c |-> "Stiffness", p |-> <<"K">>, n |-> 2],
  [d |-> "mechanics", c |-> "Damper", p |-> <<"A">>, n |-> 2], [d |-> "mechanics", c |-> "Springcubic", p |-> <<"F1", "F3", "xref">>, n |-> 2],
  [d |-> "mechanics", c |-> "Springsat", p |-> <<"K0", "Ksat", "xsat">>, n |-> 2], [d |-> "mechanics", c |-> "Felt", p |-> <<"L", "F", "A", "B">>, n |-> 2],
  [d |-> "mechanics_dual", c |-> "Mass", p |-> <<"M">>, n |-> 2], [d |-> "mechanics_dual", c |-> "Stiffness", p |-> <<"K">>, n |-> 2],
  [d |-> "mechanics_dual", c |-> "Damper", p |-> <<"A">>, n |-> 2], [d |-> "mechanics_dual", c |-> "Springcubic", p |-> <<"F1", "F3", "xref">>, n |-> 2],
  [d |-> "mechanics_dual", c |-> "Springsat", p |-> <<"K0", "Ksat", "xsat">>, n |-> 2], [d |-> "mechanics_dual", c |-> "Felt", p |-> <<"L", "F", "A", "B">>, n |-> 2],
  [d |-> "thermics", c |-> "Capacitor", p |-> <<"C", "T0">>, n |-> 1], [d |-> "thermics", c |-> "Source", p |-> <<>>, n |-> 1],
  [d |-> "thermics", c |-> "Transfer", p |-> <<"R">>, n |-> 2],
  [d |-> "electronics", c |-> "Source", p |-> <<>>, n |-> 2], [d |-> "magnetics", c |-> "Source", p |-> <<>>, n |-> 2],
  [d |-> "mechanics", c |-> "Source", p |-> <<>>, n |-> 2], [d |-> "mechanics_dual", c |-> "Source", p |-> <<>>, n |-> 2],
  [d |-> "connectors", c |-> "Gyrator", p |-> <<"alpha">>, n |-> 4], [d |-> "connectors", c |-> "Transformer", p |-> <<"alpha">>, n |-> 4],
  [d |-> "pwl", c |-> "Storage", p |-> <<>>, n |-> 2], [d |-> "pwl", c |-> "Dissipative", p |-> <<>>, n |-> 2],
  [d |-> "edges", c |-> "Observerec", p |-> <<>>, n |-> 2],
  [d |-> "transducers", c |-> "Pickup", p |-> <<"Rb", "Rp", "Lh", "Lv", "Ccoil", "Ncoil">>, n |-> 3] >>
Types(d, c) == CASE c # "Source" -> IF d = "pwl" THEN <<"e", "f">> ELSE <<"">>
                 [] d = "electronics" -> <<"voltage", "current">>
                 [] d = "magnetics" -> <<"mmf", "fluxvar", "mfv">>
                 [] d = "thermics" -> <<"temperature", "entropyvar">>
                 [] OTHER -> <<"force", "velocity">>
\* documented default values
Default(d, c, p) ==
  CASE c = "Pickup" -> (CASE p = "Lh" -> "1/2000" [] p = "Ccoil" -> "3/100000" [] p = "Ncoil" -> "100" [] OTHER -> "1/1000")
    [] d = "electronics" /\ p = "C" -> "1/1000000000" [] d = "electronics" /\ p = "L" -> "1/1000"
    [] c = "Resistor" /\ d = "electronics" -> "1000" [] c = "Resistor" -> "1/1000"
    [] c = "Potentiometer" -> (CASE p = "R" -> "100000" [] p = "E" -> "1" [] OTHER -> "")
    [] c = "Diode" -> (CASE p = "Is" -> "1/500000000" [] p = "mu" -> "17/10" [] p = "R" -> "1/2" [] OTHER -> "13/500")
    [] c = "Bjt" -> (CASE p = "Is" -> "1/1000000000000" [] p = "betaR" -> "10" [] p = "betaF" -> "200" [] p = "Vt" -> "13/500"
                       [] p = "mu" -> "1" [] p = "Rb" -> "20" [] OTHER -> "1/10")
    [] c = "Triode" -> (CASE p = "mu" -> "88" [] p = "Ex" -> "7/5" [] p = "Kg" -> "1060" [] p = "Kp" -> "600" [] p = "Kvb" -> "300"
                          [] p = "Vct" -> "1/2" [] p = "Va" -> "33/100" [] OTHER -> "3000")
    [] c = "Capacitorsat" -> (CASE p = "phisat" -> "1/10" [] OTHER -> "1000")
    [] d = "magnetics" -> "1/1000000000"
    [] c = "Mass" -> "1/100" [] c = "Stiffness" -> "1000" [] c = "Damper" -> "1"
    [] c = "Springcubic" -> (IF p = "xref" THEN "1/100" ELSE "10")
    [] c = "Springsat" -> (IF p = "xsat" THEN "1/100" ELSE "1000")
    [] c = "Felt" -> (CASE p = "L" -> "1/100" [] p = "F" -> "10" [] p = "A" -> "100" [] OTHER -> "5/2")
    [] c = "Transfer" -> "1000" [] d = "thermics" -> (IF p = "C" THEN "1000" ELSE "6829/25")
    [] OTHER -> "1"
Mix(a) == (a * (a % 8191) + 75 * a + 74) % 65537
Rnd(r, k) == Mix((Mix(r % 65537) + k * 8121 + 28411) % 65537)
One(S, r) == S[1 + ((r \div 7) % Len(S))]
Values(c, p) == CASE p = "A" /\ c = "Potentiometer" -> <<"1/4", "1/2", "3/4", "1/8", "7/8">>
                  [] p = "B" -> <<"5/2", "2", "3", "7/4", "13/4">>
                  [] p = "Ex" -> <<"7/5", "3/2", "5/4", "2">>
                  [] p = "betaR" -> <<"10", "2", "1/2">> [] p = "betaF" -> <<"200", "20", "50">>
                  [] p = "Kg" -> <<"1060", "10", "100">> [] p = "Kp" -> <<"600", "30", "10">> [] p = "Kvb" -> <<"300", "10">>
                  [] p = "mu" /\ c = "Triode" -> <<"88", "10", "50">>
                  [] p = "Csat" \/ p = "Ksat" -> <<"1", "3", "1/2", "0">>
                  [] OTHER -> V1
\* forms of a parameter: a number, a name with a value, a free name, or nothing (the default)
Forms(c, p, r) == LET f == One(<<"num", "num", "pair", "pair", "name", "default">>, r) IN
                  IF f = "default" /\ (c = "Potentiometer" /\ p = "A") THEN "name"
                  ELSE IF p \in {"Ccoil", "Ncoil"} /\ f # "default" THEN "num" ELSE f
Nodes(r) == One(<< <<"N1", "N2", "N3", "N4">>, <<Datum, "N1", "N2", "N3">>, <<"N2", Datum, "N1", "out">>, <<"a", "b", Datum, "c">> >>, r)
Pwls == << [X |-> <<"-2", "-1", "0", "1", "2">>, Y |-> <<"-3", "-1", "0", "2", "5">>, Z |-> 3],
           [X |-> <<"-1", "0", "1/2">>, Y |-> <<"-1/2", "0", "1/2">>, Z |-> 2],
           [X |-> <<"-3/2", "-1/2", "0", "1/4", "1", "5/2">>, Y |-> <<"-4", "-1", "0", "1/8", "1", "4">>, Z |-> 3] >>
Points == <<"1/2", "-1/2", "1", "-1", "3/4", "-5/4", "3/2", "2", "1/8", "-3/8", "0">>
Temps == <<"1", "2", "3/2", "5/4", "1/2">>
PointOf(c, r) == CASE c.c \in {"Springsat"} -> RMul(c.p.xsat, One(<<"1/2", "-1/2", "9/10", "-9/10", "1/8", "0">>, r))
                   [] c.c = "Capacitorsat" -> RMul(c.p.phisat, One(<<"1/2", "-1/2", "9/10", "-9/10", "1/8", "0">>, r))
                   [] c.c = "Springcubic" -> RMul(c.p.xref, One(Points, r))
                   [] c.c = "Felt" -> RMul(c.p.L, One(<<"1/2", "1/4", "3/4", "-1/2", "1", "-1/8">>, r))
                   [] c.c = "Diode" -> RMul(RMul(c.p.mu, c.p.v0), One(Points, r))
                   [] c.c = "Bjt" -> RMul(RMul(c.p.mu, c.p.Vt), One(Points, r))
                   [] c.c = "Triode" -> One(<<"100", "250", "-10", "1", "1/2", "-1", "20", "-1/4">>, r)
                   [] c.c = "Transfer" -> One(Temps, r)
                   [] c.c = "Capacitor" /\ c.d = "thermics" -> RMul(c.p.C, One(Points, r))
                   [] OTHER -> One(Points, r)
\* one job; everything is drawn from r
MakeComp(r, i) ==
  LET k == One(Cat, Rnd(r, i))
      lab == One(<<"A", "b2", "comp">>, Rnd(r, 3)) \o ToString(i)
      form == [p \in {k.p[j] : j \in 1..Len(k.p)} |-> Forms(k.c, p, Rnd(Rnd(r, 10 + i), CHOOSE j \in 1..Len(k.p) : k.p[j] = p))]
      val == [p \in DOMAIN form |-> IF form[p] = "default" THEN Default(k.d, k.c, p)
                                     ELSE One(Values(k.c, p), Rnd(Rnd(r, 20 + i), CHOOSE j \in 1..Len(k.p) : k.p[j] = p))]
      ns == Nodes(Rnd(r, 30 + i))
      n == IF k.d = "thermics" /\ k.c # "Transfer" THEN <<lab>> ELSE IF k.c = "Transfer" THEN <<"T1" \o lab, "T2" \o lab>>
           ELSE IF k.c = "Pickup" THEN One(<< <<"N1", "N2", "N3">>, <<"m", Datum, "N1">>, <<"a", "b", Datum>> >>, Rnd(r, 30 + i)) ELSE SubSeq(ns, 1, k.n)
      \* names given to parameters: own ones, or (naming all) those of the documentation, possibly permuted
      sh == Rnd(r, 70) % 4
      idx(p) == CHOOSE j \in 1..Len(k.p) : k.p[j] = p
      nm == [p \in DOMAIN form |-> IF sh < 2 \/ Only2 THEN p \o "_" \o lab ELSE k.p[1 + ((idx(p) + sh - 3) % Len(k.p))]]
      nf == [j \in 1..Len(n) |-> IF k.n = 1 /\ n[j] = Datum THEN "N9" ELSE n[j]]
      w == One(Pwls, Rnd(r, 40 + i))
  IN [d |-> k.d, c |-> k.c, l |-> lab, n |-> nf, p |-> val, form |-> form, nm |-> nm, t |-> One(Types(k.d, k.c), Rnd(r, 50 + i)),
      X |-> w.X, Y |-> w.Y, Z |-> w.Z]
Env(c, r) ==
  LET q == Comp(c)
      L == [i \in 1..Len(q.edges) |-> q.edges[i].l]
      base == [x \in Labels(q) |-> PointOf(c, Rnd(r, CHOOSE i \in 1..Len(L) : L[i] = x))]
      more == CASE c.c = "Observerec" -> [x \in {"dx" \o c.l, "F_S"} |-> IF x = "F_S" THEN "48000" ELSE One(Points, Rnd(r, 7))]
                [] c.c = "Pickup" ->
                     LET o == "x" \o c.l \o "OBS"  v == One(Points, Rnd(r, 7)) IN
                     [x \in {"d" \o o, "F_S", "q_" \o c.l \o "OBS", "dtq_" \o c.l \o "OBS"} |->
                        CASE x = "F_S" -> "48000" [] x = "q_" \o c.l \o "OBS" -> base[o] [] x = "d" \o o -> v [] OTHER -> RMul("48000", v)]
                [] c.d = "thermics" /\ c.c = "Source" -> [x \in {"u" \o c.l} |-> One(Temps, Rnd(r, 8))]
                [] c.c = "Transfer" -> [x \in {"gx" \o c.n[1], "gx" \o c.n[2]} |-> base["w" \o c.l \o (IF x = "gx" \o c.n[1] THEN "_0" ELSE "_1")]]
                [] OTHER -> [x \in {} |-> "0"]
  IN more @@ base
RECURSIVE Merge(_)
Merge(s) == IF s = <<>> THEN [x \in {} |-> "0"] ELSE Head(s) @@ Merge(Tail(s))
Make(r) ==
  LET m == IF Only2 THEN 2 ELSE 1
      cs == [i \in 1..m |-> MakeComp(r, i)]
  IN [cs |-> cs, net |-> r % 2 = 0, pts |-> [q \in 1..4 |-> Merge([i \in 1..m |-> Env(cs[i], Rnd(Rnd(r, 60 + q), i))])]]
VARIABLES ph, job
vars == <<ph, job>>
Init == ph = 0 /\ job = <<>>
Next == ph < 1 /\ ph' = ph + 1 /\ \E r \in {RandomElement(1..65536)} : job' = TLCEval(Make(r))
Each(P(_, _)) == ph = 1 => \A i \in 1..Len(job.cs) : \A q \in 1..Len(job.pts) : P(Comp(job.cs[i]), job.pts[q])
GradientInv == Each(Gradient)
PassiveInv == Each(Passive)
InverseInv == Each(Inverse)
Emit == ph = 1 => PrintT("GEN " \o ToJson(job))
=============================================================================
