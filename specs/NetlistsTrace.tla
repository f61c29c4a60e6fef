--------------------------- MODULE NetlistsTrace ---------------------------
(***************************************************************************)
(* Traces[t]: ev the events, obs what was observed after each: nets (the   *)
(* lines of all netlists), count (nlines), edges for "graph".              *)
(***************************************************************************)
EXTENDS Netlists, Json
Traces == JsonDeserialize("traces.json")
VARIABLES tid, pos, cur
Bag(s) == [x \in Set(s) |-> Cardinality({i \in 1..Len(s) : s[i] = x})]
Clause(e, o, S) ==
  IF o.exc # "" THEN "exception"
  ELSE IF Len(o.nets) # Len(S.nets) THEN "objects"
  ELSE IF \E n \in 1..Len(S.nets) : Len(S.nets[n]) # o.count[n] THEN "number-of-lines"
  ELSE IF \E n \in 1..Len(S.nets) : ~SameLines(S.nets[n], o.nets[n]) THEN "lines"
  ELSE IF e.op = "graph" /\ Bag(Edges(S.nets[e.n])) # Bag([i \in 1..Len(o.edges) |-> [l |-> o.edges[i].l, n |-> {o.edges[i].n[1], o.edges[i].n[2]}]])
       THEN "graph" ELSE ""
Verdict(c) == PrintT("VERDICT " \o ToString(tid) \o " " \o c \o " " \o ToString(pos))
TInit == tid \in 1..Len(Traces) /\ pos = 0 /\ cur = State0(Traces[tid].files)
TNext ==
  /\ pos >= 0
  /\ LET T == Traces[tid]
         n == pos + 1
         new == TLCEval(Apply(cur, T.ev[n]))
         c == IF n > Len(T.obs) THEN "missing" ELSE Clause(T.ev[n], T.obs[n], new)
         last == c # "" \/ n = Len(T.ev)
     IN /\ (c # "") => Verdict(c)
        /\ (c = "" /\ last) => Verdict("ok")
        /\ pos' = IF last THEN 0 - 1 ELSE n
        /\ cur' = IF last THEN 0 ELSE new
        /\ UNCHANGED tid
=============================================================================
