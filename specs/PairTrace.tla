----------------------------- MODULE PairTrace -----------------------------
(***************************************************************************)
(* The same simulation (model, configuration of the scheme and of its       *)
(* iterative solver, inputs) in two languages: Traces[t]: a, b.  Both stop   *)
(* their iterations on the same conditions, hence give the same values even  *)
(* when these have not converged.  Rounding is amplified by what follows it: *)
(* records are compared as long as the values stay moderate.                 *)
(***************************************************************************)
EXTENDS BigRat, Sequences, Naturals, TLC, Json
Traces == JsonDeserialize("traces.json")
VARIABLES tid, pos
Keys == {"x", "dx", "w", "u", "p", "g", "z", "y"}
Big == "10000"
Tol == "1/10000000"
MaxOf(s) == LET f[i \in 0..Len(s)] == IF i = 0 THEN "0" ELSE IF RLt(f[i - 1], RAbs(s[i])) THEN RAbs(s[i]) ELSE f[i - 1] IN f[Len(s)]
Size(r) == MaxOf(r.x \o r.dx \o r.w \o r.u \o r.p \o r.g \o r.z \o r.y)
Same(s, t, m) == /\ Len(s) = Len(t)
                 /\ \A i \in 1..Len(s) : RLe(RAbs(RSub(s[i], t[i])), RMul(Tol, RAdd("1", m)))
Clause(T, n) ==
  IF T.exc # "" THEN "exception"
  ELSE IF Len(T.a) # Len(T.b) THEN "length"
  ELSE LET m == Size(T.a[n]) IN
    IF ~RLe(m, Big) THEN "stop"
    ELSE IF \A k \in Keys : Same(T.a[n][k], T.b[n][k], m) THEN "" ELSE "languages-differ"
Verdict(c) == PrintT("VERDICT " \o ToString(tid) \o " " \o c \o " " \o ToString(pos))
TInit == tid \in 1..Len(Traces) /\ pos = 0
TNext ==
  /\ pos >= 0
  /\ LET T == Traces[tid]
         n == pos + 1
         c == Clause(T, n)
         last == c # "" \/ n = Len(T.a)
     IN /\ last => Verdict(IF c \in {"", "stop"} THEN "ok" ELSE c)
        /\ pos' = IF last THEN 0 - 1 ELSE n
        /\ UNCHANGED tid
============================================================================
