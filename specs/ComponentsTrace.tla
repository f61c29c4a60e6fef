-------------------------- MODULE ComponentsTrace --------------------------
(***************************************************************************)
(* Components observed in the implementation against their documentation.  *)
(* Trace: job, obs [edges, syms, par, pts]; obs.edges is a sequence of     *)
(* [l, a, b, ty, ct, kind, link]; obs.pts[q]: [H, g, e, f, z, ratio, obs]  *)
(* maps labels to values ("" when the law has no value).                   *)
(***************************************************************************)
EXTENDS Components, Json
Traces == JsonDeserialize("traces.json")
VARIABLES tid, pos

RECURSIVE Cat(_, _)
Cat(cs, i) == IF i > Len(cs) THEN <<>> ELSE
  LET r == Comp(cs[i])
      nm(x) == IF x \in {"~1", "~2", "~3"} THEN <<i, x>> ELSE <<0, x>>
      own == TLCEval([j \in 1..Len(r.edges) |-> [r |-> r.edges[j], a |-> nm(r.edges[j].a), b |-> nm(r.edges[j].b)]])
  IN own \o Cat(cs, i + 1)
Near1(got, want, mag) == got # "" /\ RLe(RAbs(RSub(got, want)), RAdd(RMul("1/1000000000", RMax(RAbs(want), mag)), "1/1000000000000000000"))
Slack(t, env) == RMul("1/100000", Mag(t, env))
Match(got, t, env) == ~Sound(t, env) \/ Near1(got, Val(t, env), Slack(t, env))

Structure(T, E) ==
  LET O == T.obs.edges
      Of(l) == {j \in 1..Len(O) : O[j].l = l}
      one(l) == CHOOSE j \in Of(l) : TRUE
      P == UNION {LET o == O[one(E[i].r.l)] IN {<<E[i].a, o.a>>, <<E[i].b, o.b>>} : i \in 1..Len(E)}
  IN IF Len(O) # Len(E) \/ \E i \in 1..Len(E) : Cardinality(Of(E[i].r.l)) # 1 THEN "edges"
     ELSE IF \E i \in 1..Len(E) : LET o == O[one(E[i].r.l)] IN o.ty # E[i].r.ty THEN "type"
     ELSE IF \E i \in 1..Len(E) : LET o == O[one(E[i].r.l)] IN o.ct # E[i].r.ct THEN "control"
     ELSE IF \E p \in P : \E q \in P : (p[1] = q[1]) # (p[2] = q[2]) THEN "nodes"
     ELSE IF \E p \in P : p[1][1] = 0 /\ p[1][2] # p[2] THEN "terminals"
     ELSE IF \E i \in 1..Len(E) : E[i].r.ty = "connector" /\
               LET o == O[one(E[i].r.l)] IN o.kind # E[i].r.kind \/ o.link # E[i].r.link THEN "connector"
     ELSE ""
\* names and values of parameters
Parameters(T) ==
  IF \E i \in 1..Len(T.job.cs) : LET c == T.job.cs[i] IN \E p \in DOMAIN c.form :
       LET nm == c.nm[p]  o == T.obs.par IN
       CASE c.form[p] = "pair" -> ~(nm \in DOMAIN o.subs /\ Near1(o.subs[nm], c.p[p], "0"))
         [] c.form[p] = "name" -> nm \in DOMAIN o.subs \/ ~\E j \in 1..Len(o.free) : o.free[j] = nm
         [] OTHER -> FALSE
  THEN "parameters" ELSE ""
EnvOf(T, q) == T.job.pts[q]
Point(T, E, q) ==
  LET env == EnvOf(T, q)
      o == T.obs.pts[q]
      cs == T.job.cs
      Hs == TLCEval([i \in 1..Len(cs) |-> Comp(cs[i]).H])
      law(e) == CASE e.ty = "storage" -> Match(o.g[e.l], e.g, env)
                  [] e.ty = "dissipative" ->
                       /\ e.ct \in {"e", "?"} => Match(o.e[e.l], e.e, env)
                       /\ e.ct \in {"f", "?"} => Match(o.f[e.l], e.f, env)
                       /\ \/ e.ct \in {"e", "?"} /\ Match(o.z[e.l], e.e, env)
                          \/ e.ct \in {"f", "?"} /\ Match(o.z[e.l], e.f, env)
                  [] e.ty = "connector" -> Match(o.ratio[e.l], e.ratio, env)
                  [] OTHER -> TRUE
  IN IF ~Match(o.H, Node("add", "", Hs \o <<Num("0")>>), env) THEN "energy"
     ELSE IF \E i \in 1..Len(E) : ~law(E[i].r) THEN "law"
     ELSE IF \E i \in 1..Len(cs) : \E j \in 1..Len(Comp(cs[i]).obs) :
               LET b == Comp(cs[i]).obs[j] IN b[1] \notin DOMAIN o.obs \/ ~Match(o.obs[b[1]], b[2], env) THEN "observer"
     ELSE ""
Clause(T, n) == IF T.exc # "" THEN "exception"
                ELSE LET E == Cat(T.job.cs, 1) IN
                     IF n = 1 THEN Structure(T, E) ELSE IF n = 2 THEN Parameters(T) ELSE Point(T, E, n - 2)
Verdict(c) == PrintT("VERDICT " \o ToString(tid) \o " " \o c \o " " \o ToString(pos))
TInit == tid \in 1..Len(Traces) /\ pos = 0
TNext ==
  /\ pos >= 0
  /\ LET T == Traces[tid]
         n == pos + 1
         c == Clause(T, n)
         last == c # "" \/ n = Len(T.job.pts) + 2
     IN /\ (c # "") => Verdict(c)
        /\ (c = "" /\ last) => Verdict("ok")
        /\ pos' = IF last THEN 0 - 1 ELSE n
        /\ UNCHANGED tid
=============================================================================
