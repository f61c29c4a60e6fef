----------------------------- MODULE Fractional -----------------------------
(***************************************************************************)
(* Fractional integrators and derivators.  A component c is                 *)
(*  [c: class, g: gain, o: order ("" : their defaults), np poles of modulus  *)
(*   10^pm[1]..10^pm[2], fm: the interval of frequencies, n: nodes, same:    *)
(*   orientation of the source that drives it].                              *)
(* Their documentation: f(s) = g s^(-order) e(s) for the effort-controlled   *)
(* integrator, e and f exchanged when flux-controlled, order > 0 for the     *)
(* derivators; an approximation by a passive network in the interval.        *)
(***************************************************************************)
EXTENDS BigRat, RatLib, Sequences, Integers, TLC
Gain(c) == IF c.g = "" THEN "1" ELSE c.g
Order(c) == IF c.o = "" THEN "1/2" ELSE c.o
Derivator(c) == c.c \in {"Fracderec", "Fracderfc"}
Target(c, s) == RMul(Gain(c), RPowR(s, IF Derivator(c) THEN Order(c) ELSE RNeg(Order(c))))
TwoPi == RMul("2", RPi)
\* real values of the Laplace variable, inside the interval (in geometric progression)
Inside(c, k, n) == RMul(RMul(TwoPi, c.fm[1]), RPowR(RDiv(c.fm[2], c.fm[1]), RDiv(ToString(k), ToString(n))))
Samples(c) == TLCEval([k \in 1..4 |-> Inside(c, k, 6)])
=============================================================================
