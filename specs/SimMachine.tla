----------------------------- MODULE SimMachine -----------------------------
(***************************************************************************)
(* Interleavings of creating, configuring, initialising, running and       *)
(* reading simulations.                                                    *)
(***************************************************************************)
EXTENDS Sim, Json
CONSTANTS Pick(_), Cores, MaxSims, MaxOps, Lens, OneInput, Reads, Long
PickAll(S) == S
PickOne(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
VARIABLES st, hist
vars == <<st, hist>>
Init == st = State0(Cores) /\ hist = <<>>

SchemeOpts == {NoOpt, <<<<"grad", "theta">>, <<"theta", "1/2">>>>, <<<<"grad", "trapez">>>>, <<<<"grad", "discret">>, <<"theta", "1/2">>>>,
               <<<<"grad", "theta">>, <<"theta", "1">>>>, <<<<"split", TRUE>>>>, <<<<"split", FALSE>>>>, <<<<"theta", "0">>>>}
FsOpts == {NoOpt, <<<<"fs", "100">>>>, <<<<"fs", "1000">>>>, <<<<"fs", "8000">>>>}
Opts == {NoOpt} \cup {a \o b : a \in SchemeOpts, b \in FsOpts}
X0s == {NoOpt} \cup {<<v>> : v \in {"1/4", "-1/4", "1/2", "0"}}
Ks == {"1/2", "1", "2"}
Forms == IF OneInput THEN {"array2", "list2", "tuple2", "array1", "list1", "gen2", "gen1"} ELSE {"array2", "list2", "tuple2", "gen2"}
Do(e) == st' = Apply(st, e) /\ hist' = Append(hist, e)
S == st.sims
Used(m) == {s \in 1..Len(S) : S[s].m = m}
Touched(m) == \E i \in 1..Len(hist) : hist[i].op = "init" /\ hist[i].k # NoOpt /\ S[hist[i].s].m = m

Method == Len(st.meths) < MaxSims /\ \E c \in Pick(1..Cores), o \in Pick(SchemeOpts) : Do([op |-> "method", c |-> c, o |-> o])
Edit == st.meths # <<>> /\ \E c \in Pick(1..Cores), k \in Pick(Ks) : Do([op |-> "edit", c |-> c, k |-> k])
Create == Len(S) < MaxSims /\ \E m \in Pick({m \in 1..Len(st.meths) : ~Touched(m)}), o \in Pick(Opts), x \in Pick(X0s) :
             Do([op |-> "create", m |-> m, o |-> o, x0 |-> x])
Initialise ==
  \E s \in Pick(1..Len(S)) :
    \E nt \in Pick(Lens), o \in Pick({NoOpt, NoOpt} \cup Opts), x \in Pick(X0s),
       k \in Pick({NoOpt} \cup IF Cardinality(Used(S[s].m)) = 1 THEN {<<v>> : v \in Ks} ELSE {}),
       ua \in Pick(0..5), pa \in Pick(0..5), fu \in Pick(Forms), fp \in Pick({"array2", "list2", "array1", "list1", "gen2", "gen1", "tuple2"}),
       sayn \in Pick(BOOLEAN) :
         LET known == (ua # 0 /\ fu \notin {"gen1", "gen2"}) \/ (ua = 0 /\ pa # 0 /\ fp \notin {"gen1", "gen2"})
         IN Do([op |-> "init", s |-> s, nt |-> nt, o |-> IF Long THEN NoOpt ELSE o, x0 |-> IF Long THEN NoOpt ELSE x, k |-> IF Long THEN NoOpt ELSE k,
                ua |-> ua, pa |-> pa, fu |-> fu, fp |-> fp, sayn |-> sayn \/ ~known])
Process == \E s \in Pick({s \in 1..Len(S) : S[s].ph = "ready"}) : Do([op |-> "process", s |-> s])
Read == \E s \in Pick({s \in 1..Len(S) : S[s].ph # "new"}) : Do([op |-> "read", s |-> s])
Ready == \E s \in 1..Len(S) : S[s].ph = "ready"
Done == \E s \in 1..Len(S) : S[s].ph # "new"
Next == /\ Len(hist) < MaxOps
        /\ IF st.meths = <<>> THEN Method
           ELSE IF S = <<>> THEN Create
           ELSE IF Long THEN (IF Len(hist) % 2 = 1 THEN Read ELSE Initialise)
           ELSE \/ (Len(hist) % 5 = 4 /\ (Method \/ Edit)) \/ (Len(hist) % 3 = 2 /\ Create)
                \/ (Len(hist) % 3 # 2 /\ Initialise) \/ (Ready /\ Process) \/ (Reads /\ Done /\ Read)
\* for exhaustive exploration: every action at every point
AllNext == Len(hist) < MaxOps /\ (Method \/ Edit \/ Create \/ Initialise \/ Process \/ Read)

\* ------------------------------------------------------------------ promises
Mine(e, s) == \/ e.op \in {"method", "edit", "create"}
              \/ e.s = s
RECURSIVE Keep(_, _)
Keep(h, s) == IF h = <<>> THEN <<>> ELSE (IF Mine(Head(h), s) THEN <<Head(h)>> ELSE <<>>) \o Keep(Tail(h), s)
\* the state of a simulation depends on its own events only
Own == \A s \in 1..Len(S) : Run(State0(Cores), Keep(hist, s)).sims[s] = S[s]
\* and not on what happened to the cores after its method was built
RECURSIVE Until(_, _)
Until(h, n) == IF h = <<>> THEN <<>>
               ELSE IF Head(h).op = "edit" /\ n = 0 THEN Until(Tail(h), n)
               ELSE <<Head(h)>> \o Until(Tail(h), IF Head(h).op = "method" THEN n - 1 ELSE n)
Late == \A s \in 1..Len(S) : Run(State0(Cores), Until(hist, S[s].m)).sims[s].k = S[s].k
Replayed == Run(State0(Cores), hist) = st
Emit == (Len(hist) = MaxOps) => PrintT("GEN " \o ToJson(hist))
=============================================================================
