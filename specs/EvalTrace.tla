----------------------------- MODULE EvalTrace -----------------------------
(***************************************************************************)
(* Numerical values returned by the implementation.  Traces[t].it: items   *)
(*  kind "expr": d axes, e rows of expressions, env one environment per    *)
(*     point, series TRUE when all points were given in one call, got: the *)
(*     rows per point, shape: the shape of the returned array              *)
(*  kind "op": o an operation, env arrays by name, got, shape              *)
(***************************************************************************)
EXTENDS Expr, Json
Traces == JsonDeserialize("traces.json")
VARIABLES tid, pos

ShapeOf(it) == (IF it.series THEN <<Len(it.env)>> ELSE <<>>)
               \o (CASE it.d = 0 -> <<>> [] it.d = 1 -> <<Len(it.e)>> [] OTHER -> <<Len(it.e), it.cols>>)
ExprClause(it) ==
  IF it.shape # ShapeOf(it) THEN "shape"
  ELSE IF \E q \in 1..Len(it.env) : \E i \in 1..Len(it.e) : \E j \in 1..Len(it.e[i]) :
            Sound(it.e[i][j], it.env[q]) /\ ~Near(it.got[q][i][j], it.e[i][j], it.env[q])
       THEN "value" ELSE ""
OpClause(it) ==
  LET want == TLCEval(OpVal(it.o, it.env)) IN
  IF want.d # Len(it.shape) \/ Len(want.v) # Len(it.got) THEN "shape"
  ELSE IF \A i \in 1..Len(want.v) : CloseSeq(want.v[i], it.got[i]) THEN "" ELSE "operation"
Clause(it) == IF it.exc # "" THEN "exception"
              ELSE CASE it.kind = "expr" -> ExprClause(it)
                     [] it.kind = "op" -> OpClause(it)
                     [] OTHER -> IF it.ok THEN "" ELSE it.kind
Verdict(c) == PrintT("VERDICT " \o ToString(tid) \o " " \o c \o " " \o ToString(pos))
TInit == tid \in 1..Len(Traces) /\ pos = 0
TNext ==
  /\ pos >= 0
  /\ LET T == Traces[tid].it
         n == pos + 1
         c == IF T = <<>> THEN "empty" ELSE Clause(T[n])
         last == c # "" \/ n = Len(T)
     IN /\ (c # "") => Verdict(c)
        /\ (c = "" /\ last) => Verdict("ok")
        /\ pos' = IF last THEN 0 - 1 ELSE n
        /\ UNCHANGED tid
=============================================================================
