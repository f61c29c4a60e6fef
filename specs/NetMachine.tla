----------------------------- MODULE NetMachine -----------------------------
(* Networks grow component by component; propagation runs in any order.      *)
EXTENDS Net, Json
CONSTANTS NN,          \* nodes 0..NN-1
          Types, MaxC, Vals, Pick(_), MinC, NeedCon
PickAll(S) == S
PickOne(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
VARIABLES net, phase, st
vars == <<net, phase, st>>
NoSt == [cls |-> <<>>, lam |-> {}, det |-> {}, bad |-> FALSE]
TypeSet == {Types[i] : i \in 1..Len(Types)}
Pairs == {p \in (0..NN-1) \X (0..NN-1) : p[1] # p[2]}
\* coefficients of distinct connectors are distinct (equal ones may be singular by accident)
ConVal(k) == RDiv(RInt(10 + 7 * k), RInt(3 + k))
Init == net = <<>> /\ phase = "grow" /\ st = NoSt
Add == /\ phase = "grow" /\ Len(net) < MaxC
       /\ \E i \in Pick(1..Len(Types)) : \E p \in Pick(Pairs) : \E q \in Pick(IF Types[i] \in {"G", "T"} THEN Pairs ELSE {<<>>}) :
            \E v \in Pick(IF Types[i] \in {"V", "I"} THEN {"1"}
                          ELSE IF Types[i] \in {"G", "T"} THEN {ConVal(Len(net) + 1)} ELSE Vals) :
              net' = Append(net, [id |-> Len(net) + 1, t |-> Types[i], n |-> p \o q, v |-> v])
       /\ UNCHANGED <<phase, st>>
Good(n) == Len(n) >= MinC /\ Connected(n) /\ Len(NonCon(n)) > 0
Start == phase = "grow" /\ Good(net) /\ phase' = "prop" /\ st' = PropInit(net) /\ UNCHANGED net
Prop == phase = "prop" /\ ~st.bad /\ st' \in PropSucc(Edges(net), NodesOf(net) \ {0}, st) /\ UNCHANGED <<net, phase>>
Next == Add \/ Start \/ Prop
GrowOnly == Add

Final == phase = "prop" /\ (st.bad \/ PropSucc(Edges(net), NodesOf(net) \ {0}, st) = {})
\* the result of propagation does not depend on the order of its steps
Confluent == Final => (Complete(net, st) <=> Complete(net, Propagated(net)))
                      /\ (Complete(net, st) => st.cls = Propagated(net).cls)
\* when it completes, each node but the reference is imposed by exactly one edge and those edges form a tree
Tree == Final /\ Complete(net, st) =>
   /\ Cardinality(st.det) = Cardinality(NodesOf(net)) - 1
   /\ LET E == Edges(net)  fc == SelectSeq([k \in 1..Len(E) |-> k], LAMBDA k : st.cls[k] = "f")
      IN NodesOf(net) \subseteq Reach([i \in 1..Len(fc) |-> E[fc[i]]], {0})
\* and without connectors the structure exists and is conservative
SkewS == Final /\ Complete(net, st) /\ Len(NonCon(net)) > 0 =>
   LET S == Structure(net, IdSeq(net), PropCtrl(net, st)) IN
   IF S = <<>> THEN \E k \in 1..Len(net) : net[k].t \in {"G", "T"}
   ELSE \A i, j \in 1..Len(S) : S[i][j] = RNeg(S[j][i])
\* the structure implies the response: both descriptions of a network agree
Agree == Final /\ Complete(net, st) /\ Len(NonCon(net)) > 0 /\ Len(Ports(net)) + Len(Stores(net)) > 0 =>
   LET R == Response(net, "2")
       ids == IdSeq(net)
       ctrl == PropCtrl(net, st)
       S == Structure(net, ids, ctrl)
       E == Edges(net) ne == Len(E)
       c(i) == E[EdgeOf(E, ids[i])]
       k(i) == EdgeOf(E, ids[i])
   IN (R # <<>> /\ S # <<>>) => \A j \in 1..Len(R[1]) : \A i \in 1..Len(ids) :
        LET a == [m \in 1..Len(ids) |-> IF AIsE(c(m), ctrl) THEN R[k(m)][j] ELSE R[ne + k(m)][j]]
            b == IF AIsE(c(i), ctrl) THEN R[ne + k(i)][j] ELSE R[k(i)][j]
        IN b = RDot(S[i], a)

Emit == (Len(net) = MaxC /\ Good(net) /\ (NeedCon => \E i \in 1..Len(net) : net[i].t \in {"G", "T"}))
           => PrintT("GEN " \o ToJson([net |-> net, bl |-> Bridgeless(net)]))
=============================================================================
