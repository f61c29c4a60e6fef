-------------------------------- MODULE Sim --------------------------------
(***************************************************************************)
(* Several simulations living side by side.                                *)
(*                                                                         *)
(* cores   value of the parameter of each core ("" : as built)             *)
(* meths   methods built from the cores: core, settings, parameter value   *)
(* sims    simulations built from the methods: each one has its own        *)
(*         settings, initial state, inputs, parameter value and phase      *)
(*                                                                         *)
(* Apply(S, e) is the effect of event e on the state S: events of one      *)
(* simulation never reach another one.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, BigRat, RatLib

NoOpt == <<>>
Get(o, d) == IF o = <<>> THEN d ELSE o[1]
RECURSIVE Merge(_, _)
\* settings changed by a sequence of <<option, value>>
Merge(cf, o) == IF o = <<>> THEN cf ELSE Merge([cf EXCEPT ![o[1][1]] = o[1][2]], Tail(o))
Default == [grad |-> "discret", theta |-> "0", split |-> FALSE, fs |-> "48000"]

State0(n) == [cores |-> [i \in 1..n |-> ""], meths |-> <<>>, sims |-> <<>>]
Apply(S, e) ==
  CASE e.op = "edit" -> [S EXCEPT !.cores[e.c] = e.k]
    [] e.op = "method" -> [S EXCEPT !.meths = Append(@, [c |-> e.c, cf |-> Merge(Default, e.o), k |-> S.cores[e.c]])]
    [] e.op = "create" ->
         LET M == S.meths[e.m] IN
         [S EXCEPT !.sims = Append(@, [m |-> e.m, c |-> M.c, cf |-> Merge(M.cf, e.o), x0 |-> Get(e.x0, "0"), k |-> M.k,
                                       nt |-> 0, ua |-> 0, pa |-> 0, ph |-> "new"])]
    [] e.op = "init" ->
         [S EXCEPT !.sims[e.s] = [@ EXCEPT !.cf = Merge(@, e.o), !.x0 = Get(e.x0, @), !.k = Get(e.k, @),
                                           !.nt = e.nt, !.ua = e.ua, !.pa = e.pa, !.ph = "ready"]]
    [] e.op = "process" -> [S EXCEPT !.sims[e.s].ph = "done"]
    [] OTHER -> S
RECURSIVE Run(_, _)
Run(S, h) == IF h = <<>> THEN S ELSE Run(Apply(S, Head(h)), Tail(h))

\* the input signals: 0 stands for no signal
Signal(a, n, j) == IF a = 0 THEN "0" ELSE RDiv(RInt(((n * a + j * 3 + a) % 7) - 3), "8")
Inputs(a, nt, w) == TLCEval([n \in 1..nt |-> [j \in 1..w |-> Signal(a, n, j)]])
=============================================================================
