-------------------------- MODULE FractionalTrace --------------------------
(* Linear models of driven fractional components: Traces[t]: job, nx, nw, M, Q, Z, exc. *)
EXTENDS Fractional, Json
Traces == JsonDeserialize("traces.json")
VARIABLES tid, pos
Accuracy == "1/20"
\* s x = M Q x + ..., w and y likewise
Gain2(T, s) ==
  LET nx == T.nx  nw == T.nw  n == nx + nw
      law(j, k) == IF j <= nx /\ k <= nx THEN T.Q[j][k] ELSE IF j > nx /\ k > nx THEN T.Z[j - nx][k - nx] ELSE "0"
      L == TLCEval([j \in 1..n |-> [k \in 1..n |-> law(j, k)]])
      ML == TLCEval([i \in 1..(n + 1) |-> [k \in 1..n |-> RSum(TLCEval([j \in 1..n |-> IF L[j][k] = "0" \/ T.M[i][j] = "0" THEN "0" ELSE RMul(T.M[i][j], L[j][k])]))]])
      A == TLCEval([i \in 1..n |-> [k \in 1..n |-> RSub(IF i = k THEN (IF i <= nx THEN s ELSE "1") ELSE "0", ML[i][k])]])
      X == SolveChecked(A, TLCEval([i \in 1..n |-> <<T.M[i][n + 1]>>]))
  IN IF X = <<>> THEN "" ELSE RAdd(T.M[n + 1][n + 1], RSum(TLCEval([k \in 1..n |-> RMul(ML[n + 1][k], X[k][1])])))
Diagonal(A) == \A i, j \in 1..Len(A) : IF i = j THEN RLt("0", A[i][j]) ELSE A[i][j] = "0"
Small == "1/1000000000"
Clause(T, n) ==
  IF T.exc # "" THEN "exception"
  ELSE IF n = 1 THEN
         IF Len(T.M) # T.nx + T.nw + 1 \/ T.nx = 0 THEN "size"
         ELSE IF ~(Diagonal(T.Q) /\ Diagonal(T.Z)) THEN "not-passive"
         ELSE IF \E i, j \in 1..Len(T.M) : ~RLe(RAbs(RAdd(T.M[i][j], T.M[j][i])), RMul(Small, RAdd("1", RAbs(T.M[i][j])))) THEN "not-conservative"
         ELSE ""
  ELSE LET s == Samples(T.job.c)[n - 1]  y == Gain2(T, s)  want == RNeg(Target(T.job.c, s)) IN
       IF y # "" /\ RLe(RAbs(RSub(y, want)), RMul(Accuracy, RAbs(want))) THEN "" ELSE "transfer"
Verdict(c) == PrintT("VERDICT " \o ToString(tid) \o " " \o c \o " " \o ToString(pos))
TInit == tid \in 1..Len(Traces) /\ pos = 0
TNext ==
  /\ pos >= 0
  /\ LET T == Traces[tid]
         n == pos + 1
         c == Clause(T, n)
         last == c # "" \/ n = 5
     IN /\ (c # "") => Verdict(c)
        /\ (c = "" /\ last) => Verdict("ok")
        /\ pos' = IF last THEN 0 - 1 ELSE n
        /\ UNCHANGED tid
=============================================================================
