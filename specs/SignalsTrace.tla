---------------------------- MODULE SignalsTrace ----------------------------
(***************************************************************************)
(* Traces[t].it: items                                                     *)
(*   synth: s, got                                                         *)
(*   wav: w [sig, fs, fade, norm, out, tone], rate, got (read back), bytes: the       *)
(*        integers in the file                                             *)
(***************************************************************************)
EXTENDS Signals, Json
Traces == JsonDeserialize("traces.json")
VARIABLES tid, pos
WavClause(it) ==
  LET want == TLCEval(Written(it.w)) IN
  IF it.rate # Rate(it.w) THEN "rate"
  ELSE IF Len(it.got) # Len(want) THEN "length"
  ELSE IF ~SameSignal(want, it.got) THEN "samples"
  ELSE IF ~SameSignal(ReadBack(it.bytes), it.got) THEN "reading" ELSE ""
Clause(it) == IF it.exc # "" THEN "exception"
              ELSE IF it.kind = "wav" THEN WavClause(it)
              ELSE IF Len(it.got) # Size(it.s) THEN "size"
              ELSE IF ~IsSignal(it.s, it.got) THEN "signal"
              ELSE IF ~Random(it.s, it.got) THEN "noise" ELSE ""
Verdict(c) == PrintT("VERDICT " \o ToString(tid) \o " " \o c \o " " \o ToString(pos))
TInit == tid \in 1..Len(Traces) /\ pos = 0
TNext ==
  /\ pos >= 0
  /\ LET T == Traces[tid].it
         n == pos + 1
         c == Clause(T[n])
         last == c # "" \/ n = Len(T)
     IN /\ (c # "") => Verdict(c)
        /\ (c = "" /\ last) => Verdict("ok")
        /\ pos' = IF last THEN 0 - 1 ELSE n
        /\ UNCHANGED tid
=============================================================================
