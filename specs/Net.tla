-------------------------------- MODULE Net --------------------------------
(***************************************************************************)
(* Networks: components between nodes (0 is the reference node), and what   *)
(* they mean: Kirchhoff's laws together with the law of each component.     *)
(*                                                                          *)
(* Component [id, t, n, v]: t in                                            *)
(*   V  source of effort        I  source of flow                           *)
(*   C  storage  x = C e        L  storage  x = L f                         *)
(*   R  resistor e = R f                                                    *)
(*   G  gyrator     e_A = -a f_B ,  e_B = a f_A    (two edges, four nodes)  *)
(*   T  transformer e_A = -a e_B ,  f_B = a f_A                             *)
(* Every edge goes from its first node to its second: e = p(n1) - p(n2),    *)
(* and f leaves n1 and enters n2.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, BigRat, RatLib

RECURSIVE EdgesFrom(_, _)
EdgesFrom(net, k) ==
  IF k > Len(net) THEN <<>>
  ELSE LET c == net[k] IN
       (IF c.t \in {"G", "T"}
        THEN <<[id |-> c.id, t |-> c.t, part |-> 1, a |-> c.n[1], b |-> c.n[2], v |-> c.v],
               [id |-> c.id, t |-> c.t, part |-> 2, a |-> c.n[3], b |-> c.n[4], v |-> c.v]>>
        ELSE <<[id |-> c.id, t |-> c.t, part |-> 1, a |-> c.n[1], b |-> c.n[2], v |-> c.v]>>) \o EdgesFrom(net, k + 1)
Edges(net) == EdgesFrom(net, 1)
NodesOf(net) == UNION {SeqSet(net[k].n) : k \in 1..Len(net)}
NodeSeq(net) == LET S == NodesOf(net) \ {0}
                    nth(i) == CHOOSE n \in S : Cardinality({m \in S : m <= n}) = i
                IN [i \in 1..Cardinality(S) |-> nth(i)]
Ports(net) == SelectSeq(net, LAMBDA c : c.t \in {"V", "I"})
Stores(net) == SelectSeq(net, LAMBDA c : c.t \in {"C", "L"})
Resist(net) == SelectSeq(net, LAMBDA c : c.t = "R")

RECURSIVE Reach(_, _)
Reach(E, S) == LET S2 == S \cup {E[k].b : k \in {k \in 1..Len(E) : E[k].a \in S}}
                            \cup {E[k].a : k \in {k \in 1..Len(E) : E[k].b \in S}}
               IN IF S2 = S THEN S ELSE Reach(E, S2)
Connected(net) == 0 \in NodesOf(net) /\ NodesOf(net) \subseteq Reach(Edges(net), {0})
Bridgeless(net) == LET E == Edges(net) IN
  \A k \in 1..Len(E) : LET F == SubSeq(E, 1, k - 1) \o SubSeq(E, k + 1, Len(E))
                       IN NodesOf(net) \subseteq Reach(F, {0})

(***************************************************************************)
(* The tableau: unknowns are e and f of each edge and the potential of each *)
(* node.  Law(k) gives the row and right-hand side of the law of edge k.    *)
(***************************************************************************)
Row(N, S) ==         \* S: set of <<column, coefficient>>, distinct columns
  TLCEval([j \in 1..N |-> LET h == {s \in S : s[1] = j} IN IF h = {} THEN "0" ELSE (CHOOSE s \in h : TRUE)[2]])
Unit(N, j) == TLCEval([i \in 1..N |-> IF i = j THEN "1" ELSE "0"])
Zero(N) == TLCEval([i \in 1..N |-> "0"])

Topology(net) ==      \* KVL rows then KCL rows
  LET E == Edges(net)  ne == Len(E)  ns == NodeSeq(net)  N == 2 * ne + Len(ns)
      pos(n) == 2 * ne + CHOOSE i \in 1..Len(ns) : ns[i] = n
      kvl == [k \in 1..ne |->
               Row(N, {<<k, "1">>} \cup
                      (IF E[k].a = E[k].b THEN {} ELSE
                       (IF E[k].a = 0 THEN {} ELSE {<<pos(E[k].a), "-1">>}) \cup
                       (IF E[k].b = 0 THEN {} ELSE {<<pos(E[k].b), "1">>})))]
      kcl == [i \in 1..Len(ns) |->
               Row(N, {<<ne + k, IF E[k].a = E[k].b THEN "0" ELSE IF E[k].a = ns[i] THEN "1" ELSE "-1">>
                        : k \in {k \in 1..ne : ns[i] \in {E[k].a, E[k].b}}})]
  IN kvl \o kcl
ConLaw(E, k, ne, N) ==
  IF E[k].t = "G"
  THEN (IF E[k].part = 1 THEN Row(N, {<<k, "1">>, <<ne + k + 1, E[k].v>>})
                         ELSE Row(N, {<<k, "1">>, <<ne + k - 1, RNeg(E[k].v)>>}))
  ELSE (IF E[k].part = 1 THEN Row(N, {<<k, "1">>, <<k + 1, E[k].v>>})
                         ELSE Row(N, {<<ne + k, "1">>, <<ne + k - 1, RNeg(E[k].v)>>}))
IndexOf(seq, id) == CHOOSE i \in 1..Len(seq) : seq[i].id = id
EdgeOf(E, id) == CHOOSE k \in 1..Len(E) : E[k].id = id /\ E[k].part = 1

\* response at Laplace variable s to the sources (columns 1..) and to the initial states
Tableau(net, s) ==
  LET E == Edges(net)  ne == Len(E)  N == 2 * ne + Len(NodeSeq(net))
      P == Ports(net)  X == Stores(net)  nc == Len(P) + Len(X)
      law(k) == CASE E[k].t = "V" -> Row(N, {<<k, "1">>})
                  [] E[k].t = "I" -> Row(N, {<<ne + k, "1">>})
                  [] E[k].t = "R" -> Row(N, {<<k, "1">>, <<ne + k, RNeg(E[k].v)>>})
                  [] E[k].t = "C" -> Row(N, {<<ne + k, "1">>, <<k, RNeg(RMul(s, E[k].v))>>})
                  [] E[k].t = "L" -> Row(N, {<<k, "1">>, <<ne + k, RNeg(RMul(s, E[k].v))>>})
                  [] OTHER -> ConLaw(E, k, ne, N)
      rhs(k) == CASE E[k].t \in {"V", "I"} -> Unit(nc, IndexOf(P, E[k].id))
                  [] E[k].t \in {"C", "L"} -> TLCEval([j \in 1..nc |-> RNeg(Unit(nc, Len(P) + IndexOf(X, E[k].id))[j])])
                  [] OTHER -> Zero(nc)
      T == Topology(net)
  IN [A |-> T \o [k \in 1..ne |-> law(k)], B |-> [i \in 1..Len(T) |-> Zero(nc)] \o [k \in 1..ne |-> rhs(k)]]
Response(net, s) == LET t == Tableau(net, s) IN
  IF Len(Ports(net)) + Len(Stores(net)) = 0 THEN <<>> ELSE SolveChecked(t.A, t.B)

(***************************************************************************)
(* The structure: with the control of each resistor given (fc: w = f, ec:   *)
(* w = e), the variables b = (flow or effort) of all components as a linear *)
(* function of the dual variables a.  ids: the order of the components.     *)
(***************************************************************************)
AIsE(c, ctrl) == c.t \in {"V", "C"} \/ (c.t = "R" /\ ctrl[c.id] = "f")     \* a = e, b = f
Structure(net, ids, ctrl) ==
  LET E == Edges(net)  ne == Len(E)  N == 2 * ne + Len(NodeSeq(net))
      n == Len(ids)
      law(k) == IF E[k].t \in {"G", "T"} THEN ConLaw(E, k, ne, N)
                ELSE IF AIsE(E[k], ctrl) THEN Row(N, {<<k, "1">>}) ELSE Row(N, {<<ne + k, "1">>})
      rhs(k) == IF E[k].t \in {"G", "T"} THEN Zero(n) ELSE Unit(n, CHOOSE i \in 1..n : ids[i] = E[k].id)
      T == Topology(net)
      S == SolveChecked(T \o [k \in 1..ne |-> law(k)], [i \in 1..Len(T) |-> Zero(n)] \o [k \in 1..ne |-> rhs(k)])
  IN IF S = <<>> THEN <<>>
     ELSE TLCEval([i \in 1..n |-> LET k == EdgeOf(E, ids[i]) IN IF AIsE(E[k], ctrl) THEN S[ne + k] ELSE S[k]])

(***************************************************************************)
(* Propagation of potentials from the reference node and the imposed        *)
(* variables.  An edge is effort-controlled ("e"), flow-controlled ("f": it *)
(* imposes a potential) or undetermined ("?"); lam: the pairs <<node, edge>>*)
(* where the edge may still impose the potential of the node.               *)
(***************************************************************************)
Ctrl0(t) == IF t \in {"V", "C"} THEN "f" ELSE IF t \in {"I", "L"} THEN "e" ELSE "?"
Rows(st, n) == {p \in st.lam : p[1] = n}
Cols(st, k) == {p \in st.lam : p[2] = k}
Mate(E, k) == IF E[k].t \notin {"G", "T"} THEN 0 ELSE IF E[k].part = 1 THEN k + 1 ELSE k - 1
Dual(c) == IF c = "e" THEN "f" ELSE "e"
\* edge k gets control c, and so does the other edge of a connector
SetCls(E, st, k, c) ==
  LET one(s, j, d) == IF s.cls[j] = "?" THEN [s EXCEPT !.cls[j] = d, !.lam = IF d = "e" THEN {p \in @ : p[2] # j} ELSE @]
                      ELSE IF s.cls[j] # d THEN [s EXCEPT !.bad = TRUE] ELSE s
      m == Mate(E, k)
      s1 == one(st, k, c)
  IN IF m = 0 THEN s1 ELSE one(s1, m, IF E[k].t = "G" THEN c ELSE Dual(c))
SetNode(E, st, n, k) ==
  SetCls(E, [st EXCEPT !.lam = {p \in @ : p[1] # n /\ p[2] # k} \cup {<<n, k>>}, !.det = @ \cup {<<n, k>>}], k, "f")
Known(st, n) == \E p \in st.det : p[1] = n

\* one enabled rule application (set of successor states)
PropSucc(E, ns, st) ==
     {SetNode(E, st, n, k) : <<n, k>> \in {<<n, k>> \in ns \X (1..Len(E)) : ~Known(st, n) /\ Rows(st, n) = {<<n, k>>}}}
  \cup {SetNode(E, st, n, k) : <<n, k>> \in {<<n, k>> \in ns \X (1..Len(E)) : st.cls[k] = "f" /\ ~Known(st, n) /\ Cols(st, k) = {<<n, k>>}}}
  \cup {SetCls(E, st, k, "e") : k \in {k \in 1..Len(E) : st.cls[k] = "?" /\ Cols(st, k) = {}}}
RECURSIVE Imposed(_, _, _)
Imposed(E, st, k) ==
  IF k > Len(E) THEN st
  ELSE Imposed(E, IF Ctrl0(E[k].t) = "?" THEN st ELSE SetCls(E, st, k, Ctrl0(E[k].t)), k + 1)
PropInit(net) ==
  LET E == Edges(net)
      lam == {<<n, k>> \in (NodesOf(net) \ {0}) \X (1..Len(E)) : n \in {E[k].a, E[k].b} /\ E[k].a # E[k].b}
  IN Imposed(E, [cls |-> [k \in 1..Len(E) |-> "?"], lam |-> lam, det |-> {}, bad |-> FALSE], 1)
RECURSIVE Close_(_, _, _)
Close_(E, ns, st) == LET S == PropSucc(E, ns, st) IN
  IF st.bad \/ S = {} THEN st ELSE Close_(E, ns, CHOOSE t \in S : TRUE)
Propagated(net) == Close_(Edges(net), NodesOf(net) \ {0}, PropInit(net))
Complete(net, st) == /\ ~st.bad
                     /\ \A n \in NodesOf(net) \ {0} : Known(st, n)
                     /\ \A k \in 1..Len(Edges(net)) : st.cls[k] # "?"
                     /\ \A k \in 1..Len(Edges(net)) : st.cls[k] = "f" <=> \E p \in st.det : p[2] = k
PropCtrl(net, st) == LET E == Edges(net) IN
  [id \in {net[i].id : i \in 1..Len(net)} |-> st.cls[EdgeOf(E, id)]]
\* all controls are determined by propagation, and they define a structure
NonCon(net) == SelectSeq(net, LAMBDA c : c.t \notin {"G", "T"})
IdSeq(net) == LET q == NonCon(net) IN [i \in 1..Len(q) |-> q[i].id]
Forced(net) ==
  LET st == Propagated(net) IN
  Complete(net, st) /\ Len(NonCon(net)) > 0 /\ Structure(net, IdSeq(net), PropCtrl(net, st)) # <<>>
=============================================================================
