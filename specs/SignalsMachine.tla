--------------------------- MODULE SignalsMachine ---------------------------
EXTENDS Signals, Json
Mix(a) == (a * (a % 8191) + 75 * a + 74) % 65537
Rnd(r, k) == Mix((Mix(r % 65537) + k * 8121 + 28411) % 65537)
One(S, r) == S[1 + ((r \div 7) % Len(S))]
Synth(r) ==
  LET fs == One(<<8, 16, 100, 1000, 44100>>, Rnd(r, 1))
      n == One(<<3, 4, 5, 8, 13, 20>>, Rnd(r, 2))
      per(k) == RDiv(RInt(k), RInt(fs))     \* a whole number of samples, and a fraction of one in between
      dur(k, q) == RAdd(per(k), RMul(One(<<"0", "1/2", "1/4">>, Rnd(r, q)), per(1)))
      big == fs > 100
  IN [which |-> One(<<"zero", "const", "sin", "cos", "noise", "step", "sweep", "sin">>, Rnd(r, 3)),
      tsig |-> dur(n, 4), ncycles |-> One(<<1, 2, 3, 1>>, Rnd(r, 5)), tdeb |-> dur(One(<<0, 0, 1, 3>>, Rnd(r, 6)), 7),
      tend |-> dur(One(<<0, 0, 2, 5>>, Rnd(r, 8)), 9), fs |-> fs,
      A |-> One(<<"1", "1/2", "3/4", "2">>, Rnd(r, 10)), A1 |-> One(<<"0", "0", "1/4", "1">>, Rnd(r, 11)),
      f0 |-> One(<<"1", "5/2", "10", "0", "4">>, Rnd(r, 12)), f1 |-> One(<<"100", "3", "20", "1/2">>, Rnd(r, 13)),
      ratio |-> One(<<"1", "1", "3/4", "1">>, Rnd(r, 14)), attack |-> One(<<"0", "0", "1/2", "1/4", "1">>, Rnd(r, 15)),
      decay |-> One(<<"0", "0", "1/2", "1/4", "1">>, Rnd(r, 16)), ramp |-> Rnd(r, 17) % 5 = 0,
      noise |-> One(<<"0", "0", "0", "1/8">>, Rnd(r, 18)), offset |-> One(<<"0", "0", "1/2", "-1/4">>, Rnd(r, 19)),
      phi |-> One(<<"-90", "0", "45">>, Rnd(r, 20))]
Values == <<"0", "1/2", "-1/2", "1", "-1", "1/4", "-3/4", "7/8", "1/1024", "-5/16", "3/32768", "9/10", "-1/3">>
Sound0(r) ==
  LET n == One(<<1, 2, 5, 8, 17, 4>>, Rnd(r, 31))  fs == One(<<8, 100, 8000, 44100, 48000>>, Rnd(r, 32))
      tone == [c |-> One(<<"0", "1/4">>, Rnd(r, 38)), A |-> One(<<"1/2", "3/4">>, Rnd(r, 39)), m |-> Rnd(r, 40) % 4]
      nt == One(<<16, 20, 24, 30>>, Rnd(r, 41))
      out == One(<<fs, 2 * fs, fs \div 2, (fs * 3) \div 2, 8000>>, Rnd(r, 42))
      \* at most one period out of three samples, after resampling as well
      tonal == Rnd(r, 43) % 4 = 0 /\ (nt * out) \div fs <= 200 /\ (nt * out) \div fs > 3 * tone.m
  IN
  [sig |-> IF tonal THEN Tone(tone, nt) ELSE [k \in 1..n |-> One(Values, Rnd(Rnd(r, 33), k))], fs |-> fs,
   tone |-> tone, out |-> IF tonal THEN out ELSE 0,
   \* fades: none, some samples, half of the signal (they meet), more (they are not possible)
   fade |-> IF tonal THEN "0" ELSE
            RDiv(One(<<"0", "0", "2", "5/2", RDiv(RInt(n), "2"), RDiv(RInt(n), "2"), RInt(n), RInt((n \div 2) + 1)>>, Rnd(r, 34)), RInt(fs)),
   norm |-> One(<<"", "", "max", "2", "5/4">>, Rnd(r, 35)), form |-> One(<<"list", "array", "generator">>, Rnd(r, 36)),
   ext |-> Rnd(r, 37) % 2 = 0]
VARIABLES ph, job
Init == ph = 0 /\ job = <<>>
Next == ph < 1 /\ ph' = ph + 1 /\ \E r \in {RandomElement(1..65536)} :
          job' = TLCEval([s |-> Synth(r), w |-> Sound0(r)])
\* ------------------------------------------------------------- properties
S == [k \in 1..Size(job.s) |-> Sample(job.s, k - 1)]
Bounded == ph = 1 => \A k \in 1..Size(job.s) : LET e == Sample(job.s, k - 1) IN
              /\ RLe(RAbs(e.v), RAdd(RAdd(job.s.A, job.s.A1), RAbs(job.s.offset)))
              /\ RLe(e.r, RAdd(job.s.A, job.s.noise))
\* without ramp all cycles are the same
Periodic == ph = 1 /\ ~job.s.ramp => \A k \in NDeb(job.s)..(NDeb(job.s) + (job.s.ncycles - 1) * NSig(job.s) - 1) :
              Sample(job.s, k) = Sample(job.s, k + NSig(job.s))
Silent == ph = 1 => \A k \in 0..(Size(job.s) - 1) :
              k < NDeb(job.s) \/ k >= Size(job.s) - NEnd(job.s) => Sample(job.s, k).v = "0"
\* a file gives back the signal up to a quantization step, and is a fixed point of writing
W == Written(job.w)
RoundTrip == ph = 1 => LET q == TLCEval(Quantized(W)) IN
              /\ SameSignal(W, ReadBack(q))
              /\ Quantized(ReadBack(q)) = q
              /\ (job.w.norm = "max" => \A k \in 1..Len(W) : RLe(RAbs(W[k]), "1"))
Emit == ph = 1 => PrintT("GEN " \o ToJson(job))
=============================================================================
