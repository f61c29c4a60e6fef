------------------------------ MODULE Netlists ------------------------------
(***************************************************************************)
(* Netlists and their files.                                               *)
(*                                                                         *)
(* A line is [d: dictionary, c: component, l: label, n: nodes, a: set of   *)
(* <<parameter, value>>]; nodes and values carry their type.               *)
(* nets[i]: lines of netlist object i, own[i]: its file, files[f]: what    *)
(* the file f holds.                                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
State0(nf) == [nets |-> <<>>, own |-> <<>>, files |-> [f \in 1..nf |-> [ex |-> FALSE, ls |-> <<>>]]]
Del(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Apply(S, e) ==
  CASE e.op = "open" ->
         LET f == IF S.files[e.f].ex /\ ~e.clear THEN S.files[e.f] ELSE [ex |-> TRUE, ls |-> <<>>] IN
         [S EXCEPT !.files[e.f] = f, !.nets = Append(@, f.ls), !.own = Append(@, e.f)]
    [] e.op = "text" -> [S EXCEPT !.files[e.f] = [ex |-> TRUE, ls |-> e.ls]]
    [] e.op = "add" -> [S EXCEPT !.nets[e.n] = Append(@, e.l)]
    [] e.op = "copy" -> [S EXCEPT !.nets[e.n] = Append(@, S.nets[e.m][e.i])]
    [] e.op = "del" -> [S EXCEPT !.nets[e.n] = Del(@, e.i)]
    [] e.op = "set" -> [S EXCEPT !.nets[e.n][e.i] = e.l]
    [] e.op = "sum" -> [S EXCEPT !.nets = Append(@, S.nets[e.n] \o S.nets[e.m]), !.own = Append(@, S.own[e.n])]
    [] e.op = "plus" -> [S EXCEPT !.nets[e.n] = @ \o S.nets[e.m]]
    [] e.op = "write" -> [S EXCEPT !.files[IF e.f = 0 THEN S.own[e.n] ELSE e.f] = [ex |-> TRUE, ls |-> S.nets[e.n]]]
    [] e.op = "read" -> [S EXCEPT !.nets[e.n] = S.files[S.own[e.n]].ls]
    [] OTHER -> S
RECURSIVE Run(_, _)
Run(S, h) == IF h = <<>> THEN S ELSE Run(Apply(S, Head(h)), Tail(h))
Set(s) == {s[i] : i \in 1..Len(s)}
SameLine(p, q) == p.d = q.d /\ p.c = q.c /\ p.l = q.l /\ p.n = q.n /\ Set(p.a) = Set(q.a)
SameLines(p, q) == Len(p) = Len(q) /\ \A i \in 1..Len(p) : SameLine(p[i], q[i])
\* two-terminal components: one edge each between their nodes
Edges(ls) == [i \in 1..Len(ls) |-> [l |-> ls[i].l, n |-> {ls[i].n[1], ls[i].n[2]}]]
=============================================================================
