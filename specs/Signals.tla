------------------------------ MODULE Signals ------------------------------
(***************************************************************************)
(* Synthesized signals and wave files.                                     *)
(*                                                                         *)
(* s: [which, tsig, ncycles, tdeb, tend, fs, A, A1, f0, f1, ratio, attack, *)
(*     decay, ramp, noise, offset, phi]; times in seconds, rationals.      *)
(* The signal is tdeb of silence, ncycles cycles of tsig (active during    *)
(* the given ratio of it) and tend of silence.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, BigRat, RatLib
Samples(t, fs) == RFloor(RMul(t, RInt(fs)))
NSig(s) == Samples(s.tsig, s.fs)
NOn(s) == RFloor(RMul(RInt(NSig(s)), s.ratio))
NDeb(s) == Samples(s.tdeb, s.fs)
NEnd(s) == Samples(s.tend, s.fs)
Size(s) == NDeb(s) + s.ncycles * NSig(s) + NEnd(s)
TwoPi == RMul("2", RPi)
Clamp(v) == IF RLt(v, "0") THEN "0" ELSE IF RLt("1", v) THEN "1" ELSE v
\* envelope of sample i (from 0) of the active part of a cycle
Attack(s, i) == LET n == RFloor(RMul(s.attack, RInt(NOn(s)))) IN IF n = 0 THEN "1" ELSE Clamp(RDiv(RInt(i), RInt(n)))
Decay(s, i) == LET n == RFloor(RMul(s.decay, RInt(NOn(s)))) IN IF n = 0 THEN "1" ELSE Clamp(RDiv(RInt(NOn(s) - i), RInt(n)))
Ramp(s, c, i) == IF s.ramp THEN RDiv(RInt(c * NSig(s) + i), RInt(s.ncycles * NSig(s) - 1)) ELSE "1"
Phase(f, t) == RMul(TwoPi, RMul(f, t))
\* waveform at sample i of a cycle; noise has no value, only an amplitude
Wave(s, i) ==
  LET t == RDiv(RInt(i), RInt(s.fs)) IN
  CASE s.which = "zero" -> "0"
    [] s.which \in {"const", "step"} -> s.A
    [] s.which = "sin" -> RAdd(RMul(s.A, RSin(Phase(s.f0, t))), RMul(s.A1, RSin(Phase(s.f1, t))))
    [] s.which = "cos" -> RMul(s.A, RCos(Phase(s.f0, t)))
    [] s.which = "sweep" ->                       \* the frequency goes linearly from f0 to f1 over the active part
         LET T == RDiv(RInt(NOn(s) - 1), RInt(s.fs))
             f == RAdd(s.f0, RDiv(RMul(RSub(s.f1, s.f0), t), RMul("2", T)))
         IN RMul(s.A, RCos(RAdd(Phase(f, t), RMul(s.phi, RDiv(RPi, "180")))))
    [] OTHER -> "0"
\* [v: expected value, r: random deviation allowed around it]
Sample(s, k) ==
  LET j == k - NDeb(s)
      c == j \div NSig(s)
      i == j % NSig(s)
      gain == RMul(Ramp(s, c, i), RMul(Attack(s, i), Decay(s, i)))
  IN IF j < 0 \/ j >= s.ncycles * NSig(s) THEN [v |-> "0", r |-> s.noise]
     ELSE IF i >= NOn(s) THEN [v |-> s.offset, r |-> s.noise]
     ELSE [v |-> RAdd(s.offset, RMul(gain, Wave(s, i))), r |-> IF s.which = "noise" THEN RAdd(s.noise, RMul(gain, s.A)) ELSE s.noise]
Eps == "1/100000000"
IsSignal(s, got) ==
  /\ Len(got) = Size(s)
  /\ \A k \in 1..Len(got) : LET e == Sample(s, k - 1) IN RLe(RAbs(RSub(got[k], e.v)), RAdd(e.r, Eps))
\* randomness is there when asked
Random(s, got) == (RLt("0", s.noise) \/ (s.which = "noise" /\ RLt("0", s.A) /\ ~s.ramp /\ NOn(s) > 6)) /\ Len(got) > 6
                     => \E k \in 1..Len(got) : got[k] # Sample(s, k - 1).v

\* ---------------------------------------------------------------- wave files
Full == "32767"
Faded(sig, fs, fade) ==
  LET n == Len(sig)  nf == RFloor(RMul(fade, RInt(fs))) IN
  IF nf = 0 \/ n < 2 * nf THEN sig
  ELSE [k \in 1..n |-> IF k <= nf THEN RMul(sig[k], RDiv(RInt(k - 1), RInt(nf)))
                       ELSE IF k > n - nf THEN RMul(sig[k], RDiv(RInt(n - k), RInt(nf))) ELSE sig[k]]
\* a tone [c, A, m]: m periods over the n samples of the signal; band-limited, so
\* that another sample rate gives the same function at other instants
Tone(t, n) == [k \in 1..n |-> RAdd(t.c, RMul(t.A, RCos(RMul(TwoPi, RDiv(RInt(t.m * (k - 1)), RInt(n))))))]
Resampled(w, sig) == IF w.out = 0 \/ w.out = w.fs THEN sig ELSE Tone(w.tone, (Len(sig) * w.out) \div w.fs)
Rate(w) == IF w.out = 0 THEN w.fs ELSE w.out
\* norm: "" (no scaling), "max" (maximal amplitude one) or the value of full scale
Written(w) ==
  LET f == TLCEval(Resampled(w, Faded(w.sig, w.fs, w.fade)))
      norm == w.norm
      m == RMaxAbs(f)
      scale == IF norm = "" THEN "1" ELSE IF norm = "max" THEN (IF m = "0" THEN "1" ELSE m) ELSE norm
  IN TLCEval([k \in 1..Len(f) |-> RDiv(f[k], scale)])
Trunc(v) == IF RLt(v, "0") THEN 0 - RFloor(RNeg(v)) ELSE RFloor(v)
Quantized(w) == [k \in 1..Len(w) |-> Trunc(RMul(Full, w[k]))]
ReadBack(q) == [k \in 1..Len(q) |-> RDiv(RInt(q[k]), Full)]
Tick == RDiv("1001/1000", Full)
SameSignal(want, got) == Len(want) = Len(got) /\ \A k \in 1..Len(want) : RLe(RAbs(RSub(want[k], got[k])), Tick)
=============================================================================
