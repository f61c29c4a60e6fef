------------------------------ MODULE RatLib ------------------------------
(* Vectors, matrices, polynomials and tolerances over BigRat.              *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE TLC
LOCAL INSTANCE BigRat

\* |a - b| <= tol * (1 + max(|a|,|b|))
CloseTo(a, b, tol) ==
  RLe(RAbs(RSub(a, b)), RMul(tol, RAdd("1", RMax(RAbs(a), RAbs(b)))))

Tol == "1/1000000000"                              \* 1e-9
Close(a, b) == CloseTo(a, b, Tol)

CloseSeq(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : Close(s[i], t[i])
CloseMat(A, B) == Len(A) = Len(B) /\ \A i \in 1..Len(A) : CloseSeq(A[i], B[i])

Col(A, j) == TLCEval([i \in 1..Len(A) |-> A[i][j]])
Transpose(A, n) == TLCEval([j \in 1..n |-> [i \in 1..Len(A) |-> A[i][j]]])
MatVec(A, v) == TLCEval([i \in 1..Len(A) |-> RDot(A[i], v)])
\* A (m x k) times B (k x n); n given because B may have no row
MatMul(A, B, n) == TLCEval([i \in 1..Len(A) |-> [j \in 1..n |-> RDot(A[i], Col(B, j))]])
MatAdd(A, B) == TLCEval([i \in 1..Len(A) |-> [j \in 1..Len(A[i]) |-> RAdd(A[i][j], B[i][j])]])
MatSub(A, B) == TLCEval([i \in 1..Len(A) |-> [j \in 1..Len(A[i]) |-> RSub(A[i][j], B[i][j])]])
Eye(n) == TLCEval([i \in 1..n |-> [j \in 1..n |-> IF i = j THEN "1" ELSE "0"]])
ZeroMat(m, n) == TLCEval([i \in 1..m |-> [j \in 1..n |-> "0"]])

\* A X = B solved, and the solution checked by multiplication: the elimination
\* itself (a Java override) needs no trust.  <<>> when A is singular.
SolveChecked(A, B) ==
  LET X == TLCEval(RSolve(A, B)) IN
  IF Len(A) = 0 \/ X = <<>> THEN X
  ELSE IF MatMul(A, X, Len(B[1])) = TLCEval([i \in 1..Len(B) |-> [j \in 1..Len(B[1]) |-> RCanon(B[i][j])]])
       THEN X ELSE Assert(FALSE, <<"RSolve", A, B, X>>)

(***************************************************************************)
(* Polynomials: sequences of monomials [c |-> rational, m |-> seq of ids],  *)
(* the monomial c * \prod_k v(m[k]); distinct entries have distinct m.      *)
(***************************************************************************)
ProdVals(m, Val(_)) == RProd(TLCEval([k \in 1..Len(m) |-> Val(m[k])]))
PolyEval(p, Val(_)) == RSum(TLCEval([i \in 1..Len(p) |-> RMul(p[i].c, ProdVals(p[i].m, Val))]))

CountIn(m, a) == Len(SelectSeq(m, LAMBDA b : b = a))
RECURSIVE RemoveOne(_, _)
RemoveOne(m, a) == IF m = <<>> THEN <<>>
                   ELSE IF Head(m) = a THEN Tail(m) ELSE <<Head(m)>> \o RemoveOne(Tail(m), a)
PolyDiff(p, a) ==
  LET q == SelectSeq(p, LAMBDA t : CountIn(t.m, a) > 0)
  IN TLCEval([i \in 1..Len(q) |-> [c |-> RMul(q[i].c, RInt(CountIn(q[i].m, a))),
                                   m |-> RemoveOne(q[i].m, a)]])
\* ids the polynomial really depends on
PolyVars(p) == UNION {{p[i].m[k] : k \in 1..Len(p[i].m)} : i \in {i \in 1..Len(p) : p[i].c # "0"}}
PolyConst(p) == SelectSeq(p, LAMBDA t : t.m = <<>>)

SeqSet(s) == {s[i] : i \in 1..Len(s)}
MoveElt(s, i, j) ==            \* the element at i goes to position j
  LET e == s[i]
      r == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
  IN SubSeq(r, 1, j - 1) \o <<e>> \o SubSeq(r, j, Len(r))
DelAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
=============================================================================
