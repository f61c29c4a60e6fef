------------------------------ MODULE SimTrace ------------------------------
(***************************************************************************)
(* Recorded histories of several simulations.  Traces[t]: ms the models of *)
(* the cores, ev the events, obs what was observed after each event: for   *)
(* "read", the records (rec: x, dx, w, u, p, g, z, y), the times t and the *)
(* records again (same).                                                   *)
(***************************************************************************)
EXTENDS SchemeTrace, Sim
VARIABLE cur
tvars == <<tid, pos, cur>>

Model(T, s) == LET m == T.ms[s.c] IN IF s.k = "" THEN m ELSE [m EXCEPT !.H[1].c = s.k]
Asked(T, s) == LET m == T.ms[s.c]
                   u == Inputs(s.ua, s.nt, m.ny)  p == Inputs(s.pa, s.nt, m.np)
               IN TLCEval([n \in 1..s.nt |-> [u |-> u[n], p |-> p[n]]])
ReadClause(T, s, o) ==
  LET m == Model(T, s)
      ask == Asked(T, s)
      R == [m |-> m, cf |-> s.cf, x0 |-> [i \in 1..m.nx |-> s.x0], st |-> ask, rec |-> o.rec]
  IN IF Len(o.t) # s.nt \/ Len(o.rec) # s.nt THEN "length"
     ELSE IF \E n \in 1..s.nt : ~CloseTo(o.t[n], RDiv(RInt(n - 1), s.cf.fs), "1/1000000000000") THEN "times"
     ELSE IF \E n \in 1..s.nt : o.rec[n].u # ask[n].u \/ o.rec[n].p # ask[n].p THEN "inputs"
     ELSE IF ~o.same THEN "second-reading"
     ELSE IF s.ph # "done" THEN ""
     ELSE LET bad == {n \in 1..s.nt : Clauses(R, n) # ""}
          IN IF bad = {} THEN "" ELSE Clauses(R, CHOOSE n \in bad : \A k \in bad : n <= k)
Clause(T, e, o, new) ==
  IF o.exc # "" THEN "exception"
  ELSE IF ~o.kept THEN "caller"
  ELSE IF e.op # "read" THEN ""
  ELSE ReadClause(T, new.sims[e.s], o)

SimInit == tid \in 1..Len(Traces) /\ pos = 0 /\ cur = State0(Len(Traces[tid].ms))
SimNext ==
  /\ pos >= 0
  /\ LET T == Traces[tid]
         n == pos + 1
         new == TLCEval(Apply(cur, T.ev[n]))
         c == IF n > Len(T.obs) THEN "missing" ELSE Clause(T, T.ev[n], T.obs[n], new)
         last == c # "" \/ n = Len(T.ev)
     IN /\ (c # "") => Verdict(c)
        /\ (c = "" /\ last) => Verdict("ok")
        /\ pos' = IF last THEN 0 - 1 ELSE n
        /\ cur' = IF last THEN 0 ELSE new
        /\ UNCHANGED tid
=============================================================================
