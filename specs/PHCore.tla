------------------------------ MODULE PHCore ------------------------------
(***************************************************************************)
(* The port-Hamiltonian structure object, as the user sees it.             *)
(*                                                                         *)
(* A core is a set of components (storages, dissipations, ports, ports     *)
(* declared as connectors), each with an identity, and one coefficient for *)
(* each ordered pair of components.  The position of a component is        *)
(* presentation only: moving components never touches a coefficient.       *)
(*                                                                         *)
(*   dx/dt, w, y, cy  =  M . ( dH/dx, z(w), u, cu )                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, BigRat, RatLib

EmptyCore == [ x |-> <<>>, w |-> <<>>, y |-> <<>>, c |-> <<>>,
               M |-> <<>>,           \* [id -> [id -> rational]]
               H |-> <<>>,           \* polynomial in the ids of x
               z |-> <<>>,           \* [id of w -> polynomial]
               con |-> <<>>,         \* pending connections <<id, id, alpha>>
               p |-> <<>>, o |-> <<>>, sub |-> <<>>, fw |-> {} ]

Order(C) == C.x \o C.w \o C.y \o C.c
Ids(C)   == SeqSet(Order(C))
Params(C) == SeqSet(C.p) \cup SeqSet(C.o) \cup DOMAIN C.sub

Mat(C) == LET s == Order(C) IN TLCEval([i \in 1..Len(s) |-> [j \in 1..Len(s) |-> C.M[s[i]][s[j]]]])
Jc(C, a, b) == RDiv(RSub(C.M[a][b], C.M[b][a]), "2")
Rc(C, a, b) == RNeg(RDiv(RAdd(C.M[a][b], C.M[b][a]), "2"))

Extend(C, new) ==          \* coefficients of new components are null
  LET old == DOMAIN C.M
      all == old \cup SeqSet(new)
  IN TLCEval([a \in all |-> [b \in all |-> IF a \in old /\ b \in old THEN C.M[a][b] ELSE "0"]])

AddStorages(C, ids, H)   == [C EXCEPT !.x = @ \o ids, !.M = Extend(C, ids), !.H = @ \o H]
AddDissip(C, ids, zs)    == [C EXCEPT !.w = @ \o ids, !.M = Extend(C, ids),
                                      !.z = TLCEval([a \in DOMAIN @ \cup SeqSet(ids) |->
                                             IF a \in DOMAIN @ THEN @[a]
                                             ELSE zs[CHOOSE k \in 1..Len(ids) : ids[k] = a]])]
AddPorts(C, ids)         == [C EXCEPT !.y = @ \o ids, !.M = Extend(C, ids)]

\* one block of M, J or R between kinds A and B
SetBlock(C, part, A, B, mat) ==
  LET ra == C[A]  rb == C[B]
      ia(a) == CHOOSE i \in 1..Len(ra) : ra[i] = a
      ib(b) == CHOOSE j \in 1..Len(rb) : rb[j] = b
      in(a, b) == a \in SeqSet(ra) /\ b \in SeqSet(rb)
      v(a, b)  == mat[ia(a)][ib(b)]
      new(a, b) ==
        CASE part = "M" -> IF in(a, b) THEN v(a, b) ELSE C.M[a][b]
          [] part = "J" -> IF in(a, b) THEN RSub(v(a, b), Rc(C, a, b))
                           ELSE IF in(b, a) THEN RSub(RNeg(v(b, a)), Rc(C, a, b))
                           ELSE C.M[a][b]
          [] part = "R" -> IF in(a, b) THEN RSub(Jc(C, a, b), v(a, b))
                           ELSE IF in(b, a) THEN RSub(Jc(C, a, b), v(b, a))
                           ELSE C.M[a][b]
  IN [C EXCEPT !.M = TLCEval([a \in DOMAIN @ |-> [b \in DOMAIN @ |-> new(a, b)]])]

MoveIn(C, kind, i, j) == [C EXCEPT ![kind] = MoveElt(@, i, j)]

\* ports i and j become the two ends of a connection of coefficient alpha
AddConnector(C, i, j, alpha) ==
  LET hi == IF i > j THEN i ELSE j
      lo == IF i > j THEN j ELSE i
  IN [C EXCEPT !.con = Append(@, <<C.y[i], C.y[j], alpha>>),
               !.c = @ \o <<C.y[hi], C.y[lo]>>,
               !.y = DelAt(DelAt(@, hi), lo)]

(***************************************************************************)
(* Connections.  For the pair (p, q, alpha):                               *)
(*          u_p = - alpha y_q ,      u_q = alpha y_p .                     *)
(* All connections are imposed together:  cu = S cy  and                   *)
(* cy = Mce a + Mcc cu  hence  (I - S Mcc) cu = S Mce a .                  *)
(***************************************************************************)
Remaining(C) == C.x \o C.w \o C.y
ConSwitch(C) ==
  LET n == Len(C.c)
      S(a, b) == LET hit == {k \in 1..Len(C.con) : <<C.con[k][1], C.con[k][2]>> \in {<<a, b>>, <<b, a>>}}
                 IN IF hit = {} THEN "0"
                    ELSE LET k == CHOOSE k \in hit : TRUE
                         IN IF C.con[k][1] = a THEN RNeg(C.con[k][3]) ELSE C.con[k][3]
  IN TLCEval([i \in 1..n |-> [j \in 1..n |-> S(C.c[i], C.c[j])]])

ConGain(C) ==      \* cu as a linear function of the remaining components' efforts
  LET n == Len(C.c)  r == Remaining(C)
      S == ConSwitch(C)
      Mcc == TLCEval([i \in 1..n |-> [j \in 1..n |-> C.M[C.c[i]][C.c[j]]]])
      Mce == TLCEval([i \in 1..n |-> [j \in 1..Len(r) |-> C.M[C.c[i]][r[j]]]])
  IN SolveChecked(MatSub(Eye(n), MatMul(S, Mcc, n)), MatMul(S, Mce, Len(r)))

Resolvable(C) == Len(C.c) = 0 \/ (Len(Remaining(C)) > 0 /\ ConGain(C) # <<>>)

Connect(C) ==
  IF Len(C.c) = 0 THEN C ELSE
  LET r == Remaining(C)  n == Len(C.c)
      K == ConGain(C)
      idx(a) == CHOOSE i \in 1..Len(r) : r[i] = a
      new(a, b) == RAdd(C.M[a][b],
                        RDot(TLCEval([k \in 1..n |-> C.M[a][C.c[k]]]), TLCEval([k \in 1..n |-> K[k][idx(b)]])))
  IN [C EXCEPT !.M = TLCEval([a \in SeqSet(r) |-> [b \in SeqSet(r) |-> new(a, b)]]),
               !.c = <<>>, !.con = <<>>]

\* one connection at a time (an independent definition, for confluence)
ConnectOne(C, k) ==
  LET one == [C EXCEPT !.con = <<C.con[k]>>, !.c = <<C.con[k][1], C.con[k][2]>>,
                       !.y = @ \o SelectSeq(C.c, LAMBDA a : a \notin {C.con[k][1], C.con[k][2]})]
      done == Connect(one)
  IN [done EXCEPT !.y = C.y, !.c = SelectSeq(C.c, LAMBDA a : a \notin {C.con[k][1], C.con[k][2]}),
                  !.con = DelAt(C.con, k)]

Concat(C, D) ==
  LET own(a) == IF a \in DOMAIN C.M THEN 1 ELSE 2
      all == DOMAIN C.M \cup DOMAIN D.M
  IN [ x |-> C.x \o D.x, w |-> C.w \o D.w, y |-> C.y \o D.y, c |-> C.c \o D.c,
       M |-> TLCEval([a \in all |-> [b \in all |-> IF own(a) # own(b) THEN "0"
                                   ELSE IF own(a) = 1 THEN C.M[a][b] ELSE D.M[a][b]]]),
       H |-> C.H \o D.H,
       z |-> TLCEval([a \in DOMAIN C.z \cup DOMAIN D.z |-> IF a \in DOMAIN C.z THEN C.z[a] ELSE D.z[a]]),
       con |-> C.con \o D.con, p |-> C.p \o D.p, o |-> C.o \o D.o,
       sub |-> TLCEval([a \in DOMAIN C.sub \cup DOMAIN D.sub |-> IF a \in DOMAIN D.sub THEN D.sub[a] ELSE C.sub[a]]),
       fw |-> C.fw \cup D.fw ]

SetSub(C, id, v) == [C EXCEPT !.sub = TLCEval([a \in DOMAIN @ \cup {id} |-> IF a = id THEN v ELSE @[a]])]
AddParam(C, id)  == [C EXCEPT !.p = Append(@, id), !.sub = TLCEval([a \in DOMAIN @ \ {id} |-> @[a]])]
AddObs(C, id)    == [C EXCEPT !.o = Append(@, id)]

(***************************************************************************)
(* What an observer of the object sees.                                    *)
(***************************************************************************)
TestVal(k) == RDiv(RInt(((7 * k) % 11) + 1), RInt((k % 3) + 2))
GradH(C) == TLCEval([i \in 1..Len(C.x) |-> PolyEval(PolyDiff(C.H, C.x[i]), TestVal)])
ZVal(C)  == TLCEval([i \in 1..Len(C.w) |-> PolyEval(C.z[C.w[i]], TestVal)])
Skew(A) == \A i, j \in 1..Len(A) : A[i][j] = RNeg(A[j][i])
=============================================================================
