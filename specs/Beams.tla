------------------------------- MODULE Beams -------------------------------
(***************************************************************************)
(* The documented Euler-Bernoulli cantilever beam: N modes of wavenumbers   *)
(* b_i / L with cosh b cos b = -1, the length L tuned to the fundamental F, *)
(* modal mass pi R^2 M, stiffness (E pi R^4 / 4) (b_i / L)^4, dampings from *)
(* A to A 10^D in geometric progression; a contact at z L, of width w,      *)
(* shaped as a cosine, is projected on the normalised modes.                 *)
(* c: [p: parameters ("" : default), k: number of contacts].                 *)
(***************************************************************************)
EXTENDS BigRat, RatLib, Sequences, Integers, TLC
Defaults == [F |-> "440", N |-> "5", R |-> "1/1000", E |-> "180000000000", M |-> "7750", A |-> "1/20", D |-> "6",
             z1 |-> "3/20", w1 |-> "3/200", z2 |-> "1", w2 |-> "0"]
Par(c, n) == IF n \in DOMAIN c.p /\ c.p[n] # "" THEN c.p[n] ELSE Defaults[n]
Roots == <<"18751040687119611/10000000000000000", "46940911329741745/10000000000000000", "78547574382376125/10000000000000000",
           "109955407348754669/10000000000000000", "141371683910464713/10000000000000000">>
Cosh(x) == RMul("1/2", RAdd(RExp(x), RExp(RNeg(x))))
Sinh(x) == RMul("1/2", RSub(RExp(x), RExp(RNeg(x))))
IsRoot(b) == LET f(x) == RAdd("1", RMul(Cosh(x), RCos(x))) IN
             ~RLe("0", RMul(f(RSub(b, "1/100000000")), f(RAdd(b, "1/100000000"))))
NModes(c) == CHOOSE n \in 1..5 : ToString(n) = Par(c, "N")
Sq(x) == RMul(x, x)
Mb(c) == RMul(RPi, RMul(Sq(Par(c, "R")), Par(c, "M")))
Kb(c) == RMul("1/4", RMul(RPi, RMul(Par(c, "E"), Sq(Sq(Par(c, "R"))))))
Omega0(c) == RMul(RMul("2", RPi), Par(c, "F"))
Length(c) == RDiv(Roots[1], RPowR(RDiv(RMul(Sq(Omega0(c)), Mb(c)), Kb(c)), "1/4"))
Stiff(c, i) == RMul(Kb(c), Sq(Sq(RDiv(Roots[i], Length(c)))))
Damp(c, i) == RMul(Par(c, "A"), IF NModes(c) = 1 THEN "1" ELSE RPowR("10", RMul(Par(c, "D"), RDiv(ToString(i - 1), ToString(NModes(c) - 1)))))
\* mode i averaged over the contact j
Shape(c, i, j) ==
  LET L == Length(c)  b == Roots[i]  k == RDiv(b, L)  z == RMul(Par(c, "z" \o ToString(j)), L)
      h == RMul(k, Par(c, "w" \o ToString(j)))
      s == RDiv(RAdd(Cosh(b), RCos(b)), RAdd(Sinh(b), RSin(b)))
      p2 == Sq(RPi)  kz == RMul(k, z)
      hy == RMul(RDiv(RMul(p2, Cosh(RMul("1/2", h))), RAdd(p2, Sq(h))), RSub(Cosh(kz), RMul(s, Sinh(kz))))
      tr == RMul(RDiv(RMul(p2, RCos(RMul("1/2", h))), RSub(p2, Sq(h))), RSub(RCos(kz), RMul(s, RSin(kz))))
  IN RDiv(RSub(hy, tr), RSqrt(L))
\* velocity at contact a for a unit force at contact b, mode by mode
Terms(c, a, b, s) == TLCEval([i \in 1..NModes(c) |->
   RMul(RMul(Shape(c, i, a), Shape(c, i, b)), RDiv(s, RSum(<<RMul(Mb(c), Sq(s)), RMul(Damp(c, i), s), Stiff(c, i)>>)))])
Samples(c) == TLCEval(<<RMul(Omega0(c), "1/2"), RMul(Omega0(c), "5/2"), RMul(Omega0(c), "12")>>)
=============================================================================
