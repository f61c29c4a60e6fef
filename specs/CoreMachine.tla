---------------------------- MODULE CoreMachine ----------------------------
(***************************************************************************)
(* A register machine over core objects: every history of user operations  *)
(* on several cores.  Operations are data, so that the same definition     *)
(* explores, generates (TLC -simulate) and validates traces of the code.   *)
(***************************************************************************)
EXTENDS PHCore

CONSTANTS Reg,        \* register names
          Kinds,      \* operation kinds used (with multiplicity: a sequence)
          MaxDim,     \* bound on the number of components of a core
          Fills,      \* indices of the matrix/law families
          Pick(_)     \* S (explore) or one random element of S (generate)

PickAll(S) == S
PickOne(S) == IF S = {} THEN {} ELSE {RandomElement(S)}

Dim(C) == Len(Order(C))
Blocks == {"x", "w", "y", "c"}

Small(k, i, j) == LET v == ((k * (3 * i + 5 * j) + i * j * k + 2 * i + j) % 7) - 3
                  IN IF (k + i + j) % 4 = 0 THEN RDiv(RInt(v), "2") ELSE RInt(v)
FillMat(k, m, n) == TLCEval([i \in 1..m |-> [j \in 1..n |-> Small(k, i, j)]])
SkewMat(k, n) == TLCEval([i \in 1..n |-> [j \in 1..n |-> IF i = j THEN "0" ELSE IF i < j THEN Small(k, i, j) ELSE RNeg(Small(k, j, i))]])
SymMat(k, n) == TLCEval([i \in 1..n |-> [j \in 1..n |-> IF i <= j THEN Small(k, i, j) ELSE Small(k, j, i)]])
BlockMat(k, part, A, B, m, n) ==
  IF A = B /\ part = "J" THEN SkewMat(k, n) ELSE IF A = B /\ part = "R" THEN SymMat(k, n) ELSE FillMat(k, m, n)

Coef(k) == RDiv(RInt((k % 5) + 1), RInt((k % 3) + 1))
\* energies of n new storages: separable, coupled, nonlinear, multivariate
HFam(k, s) ==
  LET base == [i \in 1..Len(s) |-> [c |-> Coef(k + i), m |-> <<s[i], s[i]>>]]
  IN base \o
     (CASE k % 6 = 1 -> <<[c |-> Coef(k), m |-> <<s[1], s[1], s[1], s[1]>>]>>
        [] k % 6 = 2 -> <<[c |-> Coef(k), m |-> <<s[1]>>]>>
        [] k % 6 = 3 /\ Len(s) > 1 -> <<[c |-> "1/3", m |-> <<s[1], s[2]>>]>>
        [] k % 6 = 4 /\ Len(s) > 1 -> <<[c |-> Coef(k), m |-> <<s[1], s[1], s[2], s[2]>>]>>
        [] k % 6 = 5 /\ Len(s) > 1 -> <<[c |-> "1/3", m |-> <<s[1], s[2]>>], [c |-> "2", m |-> <<s[2], s[2], s[2], s[2]>>]>>
        [] OTHER -> <<>>)
ZFam(k, s, i) ==
  <<[c |-> Coef(k + 2 * i), m |-> <<s[i]>>]>> \o
     (CASE (k + i) % 5 = 1 -> <<[c |-> Coef(k), m |-> <<s[i], s[i], s[i]>>]>>
        [] (k + i) % 5 = 2 /\ Len(s) > 1 -> <<[c |-> "1/2", m |-> <<s[IF i = 1 THEN 2 ELSE 1]>>]>>
        [] (k + i) % 5 = 3 /\ Len(s) > 1 /\ i = 1 -> <<[c |-> "1/2", m |-> <<s[2], s[2]>>]>>
        [] (k + i) % 5 = 4 /\ i = 1 /\ k % 2 = 0 -> <<[c |-> "3/2", m |-> <<>>]>>
        [] OTHER -> <<>>)

(***************************************************************************)
(* Candidates: where an operation of a kind is enabled (deterministic), and *)
(* the operations themselves.                                               *)
(***************************************************************************)
Cand(regs, kind) ==
  CASE kind \in {"addx", "addw", "addy"} -> {<<r>> : r \in {r \in Reg : Dim(regs[r]) <= MaxDim - 2}}
    [] kind = "set"   -> {<<r>> : r \in {r \in Reg : Dim(regs[r]) > 0}}
    [] kind \in {"movex", "movew", "movey", "movec"} ->
          LET f == CASE kind = "movex" -> "x" [] kind = "movew" -> "w" [] kind = "movey" -> "y" [] OTHER -> "c"
          IN {<<r, f>> : r \in {r \in Reg : Len(regs[r][f]) > 1}}
    [] kind = "addcon" -> {<<r>> : r \in {r \in Reg : Len(regs[r].y) > 1}}
    [] kind = "connect" -> {<<r>> : r \in {r \in Reg : Len(regs[r].c) > 0 /\ Len(Remaining(regs[r])) > 0}}
    [] kind \in {"copy", "saveload"} -> {<<r, s>> \in Reg \X Reg : r # s /\ regs[r] # EmptyCore /\ regs[s] # regs[r]}
    [] kind = "concat" -> {<<r, s, t>> \in Reg \X Reg \X Reg :
                             r # s /\ t # r /\ t # s /\ Dim(regs[r]) > 0 /\ Dim(regs[s]) > 0
                             /\ Dim(regs[r]) + Dim(regs[s]) <= MaxDim
                             /\ Ids(regs[r]) \cap Ids(regs[s]) = {}
                             /\ Params(regs[r]) \cap Params(regs[s]) = {}}
    [] kind = "new" -> {<<r>> : r \in {r \in Reg : regs[r] # EmptyCore}}
    [] kind = "force" -> {<<r>> : r \in {r \in Reg : SeqSet(regs[r].w) \ regs[r].fw # {}}}
    [] kind \in {"setsub", "addobs"} -> {<<r>> : r \in {r \in Reg : Dim(regs[r]) > 0}}
    [] kind = "addparam" -> {<<r>> : r \in {r \in Reg : Dim(regs[r]) > 0}}

NewIds(nid, n) == [i \in 1..n |-> nid + i]

OpsAt(regs, nid, kind, cd) ==
  LET r == cd[1]  C == regs[r] IN
  CASE kind = "addx" -> {[op |-> "addx", r |-> r, ids |-> NewIds(nid, n), H |-> HFam(k, NewIds(nid, n))]
                          : n \in Pick({1, 2}), k \in Pick(Fills)}
    [] kind = "addw" -> {[op |-> "addw", r |-> r, ids |-> NewIds(nid, n),
                          z |-> [i \in 1..n |-> ZFam(k, NewIds(nid, n), i)]]
                          : n \in Pick({1, 2}), k \in Pick(Fills)}
    [] kind = "addy" -> {[op |-> "addy", r |-> r, ids |-> NewIds(nid, n)] : n \in Pick({1, 2})}
    [] kind = "set" ->
         UNION {UNION {LET m == Len(C[A])  n == Len(C[B]) IN
                  {[op |-> "set", r |-> r, part |-> part, a |-> A, b |-> B,
                    mat |-> BlockMat(k, part, A, B, m, n)] : part \in Pick({"M", "J", "R"}), k \in Pick(Fills)}
                : B \in Pick({b \in Blocks : Len(C[b]) > 0})} : A \in Pick({b \in Blocks : Len(C[b]) > 0})}
    [] kind \in {"movex", "movew", "movey", "movec"} ->
         LET f == cd[2] IN
         {[op |-> "move", r |-> r, kind |-> f, i |-> i, j |-> j] : i \in Pick(1..Len(C[f])), j \in Pick(1..Len(C[f]))}
    [] kind = "addcon" ->
         UNION {{[op |-> "addcon", r |-> r, i |-> i, j |-> j, alpha |-> al]
                  : j \in Pick((1..Len(C.y)) \ {i}), al \in Pick({"1", "2", "-3/2", "1/4", "0"})} : i \in Pick(1..Len(C.y))}
    [] kind = "connect" -> {[op |-> "connect", r |-> r]}
    [] kind = "copy" -> {[op |-> "copy", r |-> r, t |-> cd[2]]}
    [] kind = "saveload" -> {[op |-> "saveload", r |-> r, t |-> cd[2], relabel |-> b] : b \in Pick(BOOLEAN)}
    [] kind = "concat" -> {[op |-> "concat", r |-> r, s |-> cd[2], t |-> cd[3]]}
    [] kind = "new" -> {[op |-> "new", r |-> r]}
    [] kind = "setsub" -> {[op |-> "setsub", r |-> r, id |-> id, v |-> v]
                            : id \in Pick({nid + 1} \cup DOMAIN C.sub), v \in Pick({"2", "-1/2", "5/4"})}
    [] kind = "addparam" -> {[op |-> "addparam", r |-> r, id |-> id] : id \in Pick(({nid + 1} \cup DOMAIN C.sub) \ SeqSet(C.p))}
    [] kind = "addobs" -> {[op |-> "addobs", r |-> r, id |-> nid + 1]}
    [] kind = "force" -> {[op |-> "force", r |-> r, id |-> id] : id \in Pick(SeqSet(C.w) \ C.fw)}

\* the effect of an operation on the registers
Apply(regs, e) ==
  LET C == regs[e.r]
      put(r, D) == [regs EXCEPT ![r] = D]
  IN CASE e.op = "addx" -> put(e.r, AddStorages(C, e.ids, e.H))
       [] e.op = "addw" -> put(e.r, AddDissip(C, e.ids, e.z))
       [] e.op = "addy" -> put(e.r, AddPorts(C, e.ids))
       [] e.op = "set"  -> put(e.r, SetBlock(C, e.part, e.a, e.b, e.mat))
       [] e.op = "move" -> put(e.r, MoveIn(C, e.kind, e.i, e.j))
       [] e.op = "addcon" -> put(e.r, AddConnector(C, e.i, e.j, e.alpha))
       [] e.op = "connect" -> IF Resolvable(C) THEN put(e.r, Connect(C)) ELSE regs
       [] e.op = "copy" -> put(e.t, C)
       [] e.op = "saveload" -> put(e.t, C)
       [] e.op = "concat" -> put(e.t, Concat(C, regs[e.s]))
       [] e.op = "new" -> put(e.r, EmptyCore)
       [] e.op = "setsub" -> put(e.r, SetSub(C, e.id, e.v))
       [] e.op = "addparam" -> put(e.r, AddParam(C, e.id))
       [] e.op = "addobs" -> put(e.r, AddObs(C, e.id))
       [] e.op = "force" -> put(e.r, [C EXCEPT !.fw = @ \cup {e.id}])

\* operations the user may legitimately see refused
MayRefuse(regs, e) == e.op = "connect" /\ ~Resolvable(regs[e.r])

NextNid(nid, e) == CASE e.op \in {"addx", "addw", "addy"} -> nid + Len(e.ids)
                     [] e.op \in {"setsub", "addparam", "addobs"} -> IF e.id > nid THEN e.id ELSE nid
                     [] OTHER -> nid

(***************************************************************************)
(* The machine, with the history as a variable (generation).                *)
(***************************************************************************)
VARIABLES regs, nid, hist

KindSet == {Kinds[i] : i \in 1..Len(Kinds)}
Init == regs = [r \in Reg |-> EmptyCore] /\ nid = 0 /\ hist = <<>>
Step == LET en == {i \in 1..Len(Kinds) : Cand(regs, Kinds[i]) # {}} IN
        \E i \in Pick(en) : \E cd \in Pick(Cand(regs, Kinds[i])) :
          \E e \in OpsAt(regs, nid, Kinds[i], cd) :
             /\ regs' = Apply(regs, e)
             /\ nid' = NextNid(nid, e)
             /\ hist' = Append(hist, e)

(***************************************************************************)
(* Invariants of the specification itself.                                  *)
(***************************************************************************)
TypeOK == \A r \in Reg : /\ DOMAIN regs[r].M = Ids(regs[r])
                         /\ Cardinality(Ids(regs[r])) = Dim(regs[r])
                         /\ DOMAIN regs[r].z = SeqSet(regs[r].w)
\* M = J - R with J skew and R symmetric
Decomposition == \A r \in Reg : \A a, b \in Ids(regs[r]) :
   /\ regs[r].M[a][b] = RSub(Jc(regs[r], a, b), Rc(regs[r], a, b))
   /\ Jc(regs[r], a, b) = RNeg(Jc(regs[r], b, a))
   /\ Rc(regs[r], a, b) = Rc(regs[r], b, a)
\* connections conserve power and may be made in any order
ConnectSound == \A r \in Reg : LET C == regs[r] IN
   (Len(C.c) > 0 /\ Len(Remaining(C)) > 0 /\ Resolvable(C)) =>
      /\ Skew(Mat(C)) => Skew(Mat(Connect(C)))
      /\ \A k \in 1..Len(C.con) :
           LET one == [C EXCEPT !.con = <<C.con[k]>>, !.c = <<C.con[k][1], C.con[k][2]>>,
                                !.y = @ \o SelectSeq(C.c, LAMBDA a : a \notin {C.con[k][1], C.con[k][2]})]
           IN (Resolvable(one) /\ Resolvable(ConnectOne(C, k))) => Connect(ConnectOne(C, k)).M = Connect(C).M
\* concatenation does not couple
ConcatSound == \A r, s \in Reg :
   (r # s /\ Ids(regs[r]) \cap Ids(regs[s]) = {}) =>
      LET D == Concat(regs[r], regs[s]) IN
      /\ \A a \in Ids(regs[r]), b \in Ids(regs[s]) : D.M[a][b] = "0" /\ D.M[b][a] = "0"
      /\ (Len(regs[r].c) > 0 /\ Len(regs[s].c) > 0 /\ Resolvable(D)) =>
            \/ ~Resolvable(regs[r]) \/ ~Resolvable(regs[s])
            \/ Connect(D).M = Concat(Connect(regs[r]), Connect(regs[s])).M
=============================================================================
