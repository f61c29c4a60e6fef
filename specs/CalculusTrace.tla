--------------------------- MODULE CalculusTrace ---------------------------
(***************************************************************************)
(* Results of the symbolic calculus of the implementation.                 *)
(* Traces[t]: j the job, it the items [kind, exc, got: rows of trees,      *)
(* kept: the operands are as before].                                      *)
(***************************************************************************)
EXTENDS Calculus, Json
Traces == JsonDeserialize("traces.json")
VARIABLES tid, pos
Same(want, got, env) == (Sound(want, env) /\ Sound(got, env)) => Near(Val(got, env), want, env)
SameRows(W, G, env) == \A i \in 1..Len(W) : \A k \in 1..Len(W[i]) : Same(W[i][k], G[i][k], env)
Shaped(W, G) == Len(W) = Len(G) /\ \A i \in 1..Len(W) : Len(W[i]) = Len(G[i])
Compare(j, W, G) == IF ~Shaped(W, G) THEN "shape"
                    ELSE IF \A q \in 1..Len(j.pts) : SameRows(W, G, j.pts[q]) THEN "" ELSE "value"
AllSound(A, env) == \A i \in 1..Len(A) : \A k \in 1..Len(A[i]) : Sound(A[i][k], env)
RECURSIVE SumMag(_)
SumMag(A) == RSum(TLCEval([i \in 1..Len(A) |-> RSum(TLCEval([k \in 1..Len(A[i]) |-> RAbs(A[i][k])]))]))
Row(f) == TLCEval([i \in 1..Len(f) |-> <<f[i]>>])
InverseClause(j, it) ==
  LET n == Len(j.A)
      regular(q) == AllSound(j.A, j.pts[q]) /\ SolveChecked(V2(j.A, j.pts[q]), Eye(n)) # <<>>
      some == \E q \in 1..Len(j.pts) : regular(q)
  IN IF it.exc # "" THEN (IF some THEN "exception" ELSE "")
     ELSE IF j.numeric /\ ~some THEN "singular"
     ELSE IF ~Shaped(j.A, it.got) THEN "shape"
     ELSE IF \A q \in 1..Len(j.pts) : (regular(q) /\ AllSound(it.got, j.pts[q])) =>
               CloseMat(MatMul(V2(j.A, j.pts[q]), V2(it.got, j.pts[q]), n), Eye(n)) THEN "" ELSE "value"
Products(j) == TLCEval([i \in 1..j.rows |-> <<Plus([k \in 1..j.cols |-> Times(j.B[i][k], j.v[k])])>>])
Sums(j) == TLCEval([i \in 1..Len(j.vs[1]) |-> <<Plus([k \in 1..Len(j.vs) |-> j.vs[k][i]])>>])
\* what a value depends on is reported; nothing else than what is written is
FreeClause(j, it) ==
  LET e == it.e IN
  IF \E s \in SeqSet(it.names) : s \notin Symbols(e) THEN "reported"
  ELSE IF \E s \in Symbols(e) : s \notin SeqSet(it.names) /\ \E q \in 1..Len(j.pts) :
            LET a == j.pts[q]  b == [a EXCEPT ![s] = RAdd(@, "1/3")] IN
              Sound(e, a) /\ Sound(e, b) /\ ~Near(Val(e, b), e, a) THEN "forgotten"
  ELSE ""
Scal(it) == it.got[1][1]
Clause(j, it) ==
  IF it.kind = "inverse" THEN (IF ~it.kept THEN "operand" ELSE InverseClause(j, it))
  ELSE IF it.kind = "mismatch" THEN (IF it.exc = "" THEN "accepted" ELSE "")
  ELSE IF it.exc # "" THEN "exception"
  ELSE IF ~it.kept THEN "operand"
  ELSE CASE it.kind = "gradient" -> Compare(j, Row(Gradient(j.f[it.i], j.vars)), it.got)
         [] it.kind = "hessian" -> Compare(j, Hessian(j.f[it.i], j.vars), it.got)
         [] it.kind = "jacobian" -> Compare(j, Jacobian(j.f, j.vars), it.got)
         [] it.kind = "matvecprod" -> Compare(j, Products(j), it.got)
         [] it.kind = "sumvecs" -> Compare(j, Sums(j), it.got)
         [] it.kind = "free" -> FreeClause(j, it)
         [] it.kind = "dxH" -> Compare(j, Row(Gradient(j.m.H, j.m.x)), it.got)
         [] it.kind = "hessH" -> Compare(j, Hessian(j.m.H, j.m.x), it.got)
         [] it.kind = "jacz" -> Compare(j, Jacobian(j.m.z, j.m.w), it.got)
         [] it.kind = "a" -> Compare(j, Row(Efforts(j.m)), it.got)
         [] it.kind = "output" ->
              IF Len(it.got) # Len(j.m.u) THEN "shape"
              ELSE IF \A q \in 1..Len(j.pts) : LET env == j.pts[q] IN
                        (AllSound(Row(Efforts(j.m)), env) /\ AllSound(it.got, env)) =>
                          LET w == Outputs(j.m, env) IN
                            \A k \in 1..Len(w) : CloseTo(w[k], Val(it.got[k][1], env), "1/1000000000") THEN "" ELSE "value"
         [] it.kind = "pd" ->
              IF \A q \in 1..Len(j.pts) : LET env == j.pts[q] IN
                   (AllSound(Row(Efforts(j.m)), env) /\ Sound(Scal(it), env)) =>
                      CloseTo(Dissipated(j.m, env), Val(Scal(it), env), "1/1000000000") THEN "" ELSE "value"
         [] OTHER -> "unknown"
Verdict(c) == PrintT("VERDICT " \o ToString(tid) \o " " \o c \o " " \o ToString(pos))
TInit == tid \in 1..Len(Traces) /\ pos = 0
TNext ==
  /\ pos >= 0
  /\ LET T == Traces[tid]
         n == pos + 1
         c == IF T.it = <<>> THEN "empty" ELSE Clause(T.j, T.it[n])
         last == c # "" \/ n = Len(T.it)
     IN /\ (c # "") => Verdict(c)
        /\ (c = "" /\ last) => Verdict("ok")
        /\ pos' = IF last THEN 0 - 1 ELSE n
        /\ UNCHANGED tid
=============================================================================
