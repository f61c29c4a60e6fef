------------------------------ MODULE NetTrace ------------------------------
(***************************************************************************)
(* Judges models built by the code.  A trace: the reference network and a   *)
(* sequence of builds, each of a network that is supposed to be equivalent  *)
(* (field net), with the models obtained.                                    *)
(***************************************************************************)
EXTENDS Net, Json
CONSTANTS Mode        \* "laws" (P08), "accept" (P09), "same" (P10)
Traces == JsonDeserialize("traces.json")
VARIABLES tid, pos

S1 == "2"
S2 == "3/7"
CompOf(net, id) == net[CHOOSE i \in 1..Len(net) : net[i].id = id]
HasComp(net, id, T) == \E i \in 1..Len(net) : net[i].id = id /\ net[i].t \in T

\* control of the resistors as seen in the law used by the model
RCtrl(net, r) == [id \in {net[i].id : i \in 1..Len(net)} |->
   LET h == {i \in 1..Len(r.w) : r.w[i] = id} IN
   IF h = {} THEN "f" ELSE LET i == CHOOSE i \in h : TRUE IN IF Close(r.Z[i][i], CompOf(net, id).v) THEN "f" ELSE "e"]

Entire(net, r) ==      \* no component was merged with another
  /\ SeqSet(r.x) = {c.id : c \in SeqSet(Stores(net))} /\ Len(r.x) = Len(Stores(net))
  /\ SeqSet(r.w) = {c.id : c \in SeqSet(Resist(net))} /\ Len(r.w) = Len(Resist(net))

\* response of the model: unknowns x, w, y; columns: sources of net in order, then initial states
CoreResponse(net, r, s) ==
  LET nx == Len(r.x)  nw == Len(r.w)  ny == Len(r.y)  n == nx + nw + ny
      P == Ports(net)  nc == Len(P) + nx
      MQ == TLCEval([i \in 1..n |-> [j \in 1..nx |-> RDot(TLCEval([m \in 1..nx |-> r.M[i][m]]), Col(r.Q, j))]])
      MZ == TLCEval([i \in 1..n |-> [j \in 1..nw |-> RDot(TLCEval([m \in 1..nw |-> r.M[i][nx + m]]), Col(r.Z, j))]])
      A == TLCEval([i \in 1..n |-> [j \in 1..n |->
             RSub(IF i = j THEN (IF i <= nx THEN s ELSE "1") ELSE "0",
                  IF j <= nx THEN MQ[i][j] ELSE IF j <= nx + nw THEN MZ[i][j - nx] ELSE "0")]])
      up(j) == CHOOSE m \in 1..ny : r.y[m] = P[j].id
      B == TLCEval([i \in 1..n |-> [j \in 1..nc |-> IF j <= Len(P) THEN r.M[i][nx + nw + up(j)]
                                                  ELSE IF i = j - Len(P) THEN "1" ELSE "0"]])
  IN IF nc = 0 THEN <<>> ELSE SolveChecked(A, B)

\* |a-b| small relative to the size of the response
Near(a, b, scale) == RLe(RAbs(RSub(a, b)), RMul("1/100000000", RAdd("1", RAdd(scale, RMax(RAbs(a), RAbs(b))))))

IOSame(net, ref, r, s) ==      \* input-output response of the model vs. the one of network ref
  LET R == Response(ref, s)
      X == CoreResponse(net, r, s)
      P == Ports(net)
      E == Edges(ref)  ne == Len(E)
      off == Len(r.x) + Len(r.w)
      refp(j) == IndexOf(Ports(ref), P[j].id)
      yv(i, j) == LET k == EdgeOf(E, P[i].id) IN IF P[i].t = "V" THEN R[ne + k][refp(j)] ELSE R[k][refp(j)]
  IN R = <<>> \/ Len(P) = 0 \/
     (X # <<>> /\ \A i, j \in 1..Len(P) : Near(X[off + CHOOSE m \in 1..Len(r.y) : r.y[m] = P[i].id][j], yv(i, j), "0"))
\* storages and resistors that kept their identity
Internal(net, r, s) ==
  LET R == Response(net, s)  X == CoreResponse(net, r, s)
      E == Edges(net)  ne == Len(E)  np == Len(Ports(net))
      ctrl == RCtrl(net, r)
  IN R = <<>> \/ X = <<>> \/
     \A j \in 1..np :
       /\ \A i \in 1..Len(r.x) : r.x[i] > 0 =>
            LET k == EdgeOf(E, r.x[i]) IN
            Near(X[i][j], RMul(E[k].v, IF E[k].t = "C" THEN R[k][j] ELSE R[ne + k][j]), "0")
       /\ \A i \in 1..Len(r.w) : r.w[i] > 0 =>
            LET k == EdgeOf(E, r.w[i]) IN
            Near(X[Len(r.x) + i][j], IF ctrl[r.w[i]] = "f" THEN R[ne + k][j] ELSE R[k][j], "0")

Laws(net, r) ==
  CASE r.st = "bad" -> "malformed-model"
    [] r.ncy # 0 -> "connections-left"
    [] Len(r.y) # Len(Ports(net)) \/ SeqSet(r.y) # {c.id : c \in SeqSet(Ports(net))} -> "sources-missing"
    [] \E i \in 1..Len(r.x) : r.x[i] > 0 /\ ~HasComp(net, r.x[i], {"C", "L"}) -> "unknown-state"
    [] \E i \in 1..Len(r.w) : r.w[i] > 0 /\ ~HasComp(net, r.w[i], {"R"}) -> "unknown-dissipation"
    [] \E i, j \in 1..Len(r.M) : ~Close(r.M[i][j], RNeg(r.M[j][i])) -> "not-conservative"
    [] \E i \in 1..Len(r.x) : r.x[i] > 0 /\ ~Close(RMul(r.Q[i][i], CompOf(net, r.x[i]).v), "1") -> "storage-law"
    [] \E i \in 1..Len(r.w) : r.w[i] > 0 /\ ~Close(r.Z[i][i], CompOf(net, r.w[i]).v)
                                        /\ ~Close(RMul(r.Z[i][i], CompOf(net, r.w[i]).v), "1") -> "resistor-law"
    [] Entire(net, r) ->
         LET S == Structure(net, r.x \o r.w \o r.y, RCtrl(net, r)) IN
         IF S = <<>> THEN "structure-of-unsolvable-network"
         ELSE IF ~CloseMat(S, r.M) THEN "kirchhoff" ELSE ""
    [] ~IOSame(net, net, r, S1) \/ ~IOSame(net, net, r, S2) -> "response"
    [] ~Internal(net, r, S1) -> "internal-response"
    [] OTHER -> ""

Judge(ref, b, r) ==
  CASE Mode = "laws" -> IF r.st = "err" THEN "" ELSE Laws(b.net, r)
    [] Mode = "accept" -> IF r.st = "err" THEN (IF Forced(b.net) /\ ~b.merge THEN "refused" ELSE "") ELSE Laws(b.net, r)
    [] OTHER -> IF r.st = "bad" THEN "malformed-model"
                ELSE IF r.st = "err" THEN (IF Forced(ref) /\ ~b.merge THEN "refused" ELSE "")
                ELSE IF Len(r.y) # Len(Ports(b.net)) THEN "sources-missing"
                ELSE IF ~IOSame(b.net, ref, r, S1) \/ ~IOSame(b.net, ref, r, S2) THEN "response" ELSE ""

T == Traces[tid]
Pairs == {<<i, j>> \in (1..Len(T.builds)) \X (1..9) : j <= Len(T.builds[i].recs)}
Bad == {p \in Pairs : Judge(T.net, T.builds[p[1]], T.builds[p[1]].recs[p[2]]) # ""}
TInit == tid \in 1..Len(Traces) /\ pos = 0
TNext ==
  /\ pos = 0 /\ pos' = 1 /\ tid' = tid
  /\ LET B == Bad IN
     IF B = {} THEN PrintT("VERDICT " \o ToString(tid) \o " ok 0")
     ELSE LET p == CHOOSE p \in B : \A q \in B : 10 * p[1] + p[2] <= 10 * q[1] + q[2]
          IN PrintT("VERDICT " \o ToString(tid) \o " " \o Judge(T.net, T.builds[p[1]], T.builds[p[1]].recs[p[2]]) \o " " \o ToString(p[1] - 1))
=============================================================================
