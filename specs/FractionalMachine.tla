------------------------- MODULE FractionalMachine -------------------------
(* Random fractional components; the target laws compose as powers do.      *)
EXTENDS Fractional, Json
VARIABLES ph, c
vars == <<ph, c>>
Mix(a) == (a * (a % 8191) + 75 * a + 74) % 65537
Rnd(r, k) == Mix((Mix(r % 65537) + k * 8121 + 28411) % 65537)
One(S, r) == S[1 + ((r \div 7) % Len(S))]
Grids == << [np |-> 9, pm |-> <<-1, 6>>, nf |-> 60, fm |-> <<"20", "2000">>], [np |-> 8, pm |-> <<-1, 5>>, nf |-> 40, fm |-> <<"10", "1000">>],
            [np |-> 10, pm |-> <<0, 7>>, nf |-> 60, fm |-> <<"20", "20000">>], [np |-> 12, pm |-> <<-2, 7>>, nf |-> 80, fm |-> <<"5", "10000">>] >>
Make(r) == One(Grids, Rnd(r, 1)) @@
  [c |-> One(<<"Fracintec", "Fracintfc", "Fracderec", "Fracderfc">>, Rnd(r, 2)),
   g |-> One(<<"", "1", "2", "1/2", "3", "10", "1/8">>, Rnd(r, 3)), o |-> One(<<"", "1/2", "1/4", "3/10", "3/4", "3/5", "2/5">>, Rnd(r, 4)),
   l |-> One(<<"fr", "F1", "x">>, Rnd(r, 5)), n |-> One(<< <<"A", "#">>, <<"#", "A">> >>, Rnd(r, 6)), same |-> Rnd(r, 8) % 2 = 0]
Init == ph = 0 /\ c = <<>>
Next == ph < 1 /\ ph' = ph + 1 /\ \E r \in {RandomElement(1..65536)} : c' = TLCEval(Make(r))
Near(a, b) == RLe(RAbs(RSub(a, b)), RMul("1/1000000000", RAbs(b)))
\* an integrator and the derivator of the same order and gain undo each other, up to the square of the gain
Undo == ph = 1 => \A s \in {Samples(c)[i] : i \in 1..4} :
          LET d == [c EXCEPT !.c = IF Derivator(c) THEN "Fracintec" ELSE "Fracderec"] IN
          Near(RMul(Target(c, s), Target(d, s)), RMul(Gain(c), Gain(c)))
Emit == ph = 1 => PrintT("GEN " \o ToJson([c |-> c]))
=============================================================================
