---------------------------- MODULE BeamsMachine ----------------------------
(* Random beams; roots of the modal equation, rigid clamp, normalised tip, passive and reciprocal mobilities. *)
EXTENDS Beams, Json
VARIABLES ph, c
vars == <<ph, c>>
ASSUME \A i \in 1..5 : IsRoot(Roots[i])
Mix(a) == (a * (a % 8191) + 75 * a + 74) % 65537
Rnd(r, k) == Mix((Mix(r % 65537) + k * 8121 + 28411) % 65537)
One(S, r) == S[1 + ((r \div 7) % Len(S))]
Make(r) ==
  [l |-> One(<<"b", "beam", "B1">>, Rnd(r, 1)), k |-> One(<<1, 2, 2, 3>>, Rnd(r, 2)),
   p |-> [F |-> One(<<"", "440", "220", "100", "330">>, Rnd(r, 3)), N |-> One(<<"1", "2", "3", "4">>, Rnd(r, 4)), R |-> One(<<"", "1/1000", "1/500", "3/2000">>, Rnd(r, 5)),
          E |-> One(<<"", "180000000000", "70000000000">>, Rnd(r, 6)), M |-> One(<<"", "7750", "2700">>, Rnd(r, 7)), A |-> One(<<"", "1/20", "1", "1/2">>, Rnd(r, 8)),
          D |-> One(<<"", "1", "2", "0">>, Rnd(r, 9)), z1 |-> One(<<"", "3/10", "1/2", "4/5">>, Rnd(r, 10)), w1 |-> One(<<"1/100", "0", "1/200">>, Rnd(r, 11)),
          z2 |-> One(<<"", "1", "7/10">>, Rnd(r, 12)), w2 |-> One(<<"", "0">>, Rnd(r, 13)), z3 |-> One(<<"1/2", "2/5">>, Rnd(r, 14)), w3 |-> One(<<"0", "1/200">>, Rnd(r, 15))]]
Init == ph = 0 /\ c = <<>>
Next == ph < 1 /\ ph' = ph + 1 /\ \E r \in {RandomElement(1..65536)} : c' = TLCEval(Make(r))
Near(a, b) == RLe(RAbs(RSub(a, b)), "1/1000000")
Modes == ph = 1 =>
  LET at(z) == [c EXCEPT !.p.z1 = z, !.p.w1 = "0"] IN
  \A i \in 1..NModes(c) : /\ Near(Shape(at("0"), i, 1), "0")
                          /\ Near(RMul(Sq(Shape(at("1"), i, 1)), Length(c)), "4")
Mobility == ph = 1 => \A s \in {Samples(c)[n] : n \in 1..3} :
  /\ RLe("0", RSum(Terms(c, 1, 1, s)))
  /\ RSum(Terms(c, 1, 2, s)) = RSum(Terms(c, 2, 1, s))
Emit == ph = 1 => PrintT("GEN " \o ToJson([c |-> c]))
=============================================================================
