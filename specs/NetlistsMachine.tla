-------------------------- MODULE NetlistsMachine --------------------------
EXTENDS Netlists, Json
CONSTANTS Pick(_), Files, MaxNets, MaxOps, Small
PickAll(S) == S
PickOne(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
VARIABLES st, hist
vars == <<st, hist>>
Init == st = State0(Files) /\ hist = <<>>
Nodes == IF Small THEN {<<"i", "1">>, <<"s", "A">>} ELSE {<<"i", "1">>, <<"i", "2">>, <<"i", "13">>, <<"s", "A">>, <<"s", "#">>, <<"s", "in">>, <<"s", "N1">>, <<"s", "1">>, <<"s", "Out_2">>}
Values(k) == {<<"f", v>> : v \in {"1/2", "1", "1000", "1/1024", "-3/4", "1/1000000000", "100000000000000000000000"}} \cup {<<"i", v>> : v \in {"1", "0", "-2", "1000"}}
             \cup {<<"s", v>> : v \in {k, "par", "R_in", "p2"}} \cup {<<"t", "lab", "1/10">>, <<"t", "my_R", "47000">>, <<"t", "c1", "1/10000000">>, <<"ti", "q", "3">>}
V(k) == IF Small THEN {<<"f", "1/2">>, <<"s", "p">>} ELSE Values(k)
Kinds == {<<"electronics", "resistor", "R">>, <<"electronics", "capacitor", "C">>, <<"electronics", "inductor", "L">>, <<"electronics", "source", "type">>}
         \cup (IF Small THEN {} ELSE {<<"mechanics", "damper", "A">>, <<"mechanics_dual", "stiffness", "K">>, <<"connectors", "gyrator", "alpha">>})
Args(k) == IF k[3] = "type" THEN {<<<<"type", <<"s", v>>>>>> : v \in {"voltage", "current"}}
           ELSE {<<<<k[3], v>>>> : v \in V(k[3])} \cup (IF Small \/ k[1] = "electronics" THEN {} ELSE {<<<<k[3], v>>, <<"aux", w>>, <<"b2", v>>>> : v \in V(k[3]), w \in V("z")} \cup {<<>>})
Lab == IF Small THEN {"a", "b"} ELSE {"r1", "C2", "out", "in_1", "L", "x12", "Rb", "Cin", "q", "E"}
Lines(h) == IF Small THEN {[d |-> "electronics", c |-> "resistor", l |-> l, n |-> <<<<"i", "1">>, <<"s", "A">>>>, a |-> <<<<"R", <<"f", "1/2">>>>>>] : l \in Lab}
         ELSE UNION {UNION {{[d |-> k[1], c |-> k[2], l |-> l, n |-> n, a |-> a] :
                 l \in Pick(Lab), a \in Pick(Args(k)), n \in Pick({<<p, q>> : p \in Nodes, q \in Nodes} \cup IF k[1] = "electronics" THEN {} ELSE {<<p, q, p, q>> : p, q \in Nodes} \cup {<<p>> : p \in Nodes})} : j \in {1}} : k \in Pick(Kinds)}
Do(e) == st' = Apply(st, e) /\ hist' = Append(hist, e)
N == 1..Len(st.nets)
Full == {n \in N : st.nets[n] # <<>>}
Big == {n \in N : Len(st.nets[n]) >= 8}
Styles == {"plain", "comments", "blank", "spaces", "nosemicolon", "newline"}
Open == Len(st.nets) < MaxNets /\ \E f \in Pick(1..Files), c \in Pick({TRUE, FALSE}) : Do([op |-> "open", f |-> f, clear |-> c])
Text == \E f \in Pick(1..Files), n \in Pick(0..3), s \in Pick(Styles) :
          \E a \in Lines(hist), b \in Lines(hist), c \in Lines(hist) : Do([op |-> "text", f |-> f, ls |-> SubSeq(<<a, b, c>>, 1, n), style |-> s])
Add == \E n \in Pick(N \ Big), l \in Lines(hist) : Do([op |-> "add", n |-> n, l |-> l])
Copy == \E n \in Pick(N \ Big), m \in Pick(Full) : \E i \in Pick(1..Len(st.nets[m])) : Do([op |-> "copy", n |-> n, m |-> m, i |-> i])
DelL == \E n \in Pick(Full) : \E i \in Pick(1..Len(st.nets[n])) : Do([op |-> "del", n |-> n, i |-> i])
SetL == \E n \in Pick(Full) : \E i \in Pick(1..Len(st.nets[n])), l \in Lines(hist) : Do([op |-> "set", n |-> n, i |-> i, l |-> l])
Sum == Len(st.nets) < MaxNets /\ \E n \in Pick(N \ Big), m \in Pick(N \ Big) : Do([op |-> "sum", n |-> n, m |-> m])
Plus == \E n \in Pick(N \ Big), m \in Pick(N \ Big) : Do([op |-> "plus", n |-> n, m |-> m])
Write == \E n \in Pick(N), f \in Pick(0..Files) : Do([op |-> "write", n |-> n, f |-> f])
Read == \E n \in Pick({n \in N : st.files[st.own[n]].ex}) : Do([op |-> "read", n |-> n])
Plain(ls) == /\ \A i, j \in 1..Len(ls) : i # j => ls[i].l # ls[j].l
             /\ \A i \in 1..Len(ls) : ls[i].d = "electronics" /\ ls[i].n[1] # ls[i].n[2] /\ \A k \in 1..Len(ls[i].a) : ls[i].a[k][2] # <<"i", "0">>
Graphs == \E n \in Pick({n \in Full : Plain(st.nets[n])}) : Do([op |-> "graph", n |-> n])
Next == Len(hist) < MaxOps /\ (IF st.nets = <<>> THEN Text \/ Open ELSE Open \/ Text \/ Add \/ Add \/ Copy \/ DelL \/ SetL \/ Sum \/ Plus \/ Write \/ Read \/ Graphs)
\* ------------------------------------------------------------------ promises
\* writing and reading back gives the same lines
RoundTrip == \A n \in N, f \in 1..Files :
               LET S == Run(st, <<[op |-> "write", n |-> n, f |-> f], [op |-> "open", f |-> f, clear |-> FALSE]>>)
               IN S.nets[Len(S.nets)] = st.nets[n] /\ \A m \in N : S.nets[m] = st.nets[m]
\* sums keep every line of both operands, in order, and leave them as they are
Sums == \A n, m \in N : LET S == Apply(st, [op |-> "sum", n |-> n, m |-> m]) IN
          /\ Len(S.nets[Len(S.nets)]) = Len(st.nets[n]) + Len(st.nets[m])
          /\ \A k \in N : S.nets[k] = st.nets[k]
\* deleting an added line restores the netlist
Undo == \A n \in N, l \in IF Small THEN Lines(hist) ELSE {} :
          Run(st, <<[op |-> "add", n |-> n, l |-> l], [op |-> "del", n |-> n, i |-> Len(st.nets[n]) + 1]>>) = st
View == st
Emit == (Len(hist) = MaxOps) => PrintT("GEN " \o ToJson(hist))
=============================================================================
