-------------------------------- MODULE Data --------------------------------
(***************************************************************************)
(* Reading recorded data.                                                  *)
(*                                                                         *)
(* A store holds nt rows; the reading window (start, stop, step) is set on  *)
(* the reader, by index or by time, and a query selects rows (nothing, one  *)
(* index, a slice) and components (idem) of one variable or of a quantity   *)
(* derived from the variables.  Optional integers are <<>> or <<v>>;        *)
(* selections are [k |-> "none" | "int" | "slice", a, b, c].                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, BigRat, RatLib

Or(o, d) == IF o = <<>> THEN d ELSE o[1]
Least(a, b) == IF a < b THEN a ELSE b
Greatest(a, b) == IF a < b THEN b ELSE a
Clip(v, n) == IF v < 0 THEN Greatest(0, v + n) ELSE Least(v, n)
\* 1-based positions a, a + c, ... below b (0-based, exclusive)
RECURSIVE Progression(_, _, _)
Progression(a, b, c) == IF a >= b THEN <<>> ELSE <<a + 1>> \o Progression(a + c, b, c)

NoSel == [k |-> "none", a |-> <<>>, b |-> <<>>, c |-> <<>>]
\* the whole range of n, with defaults for what the selection leaves open
Select(s, n, d) ==
  CASE s.k = "none" -> Progression(Clip(d.start, n), Clip(d.stop, n), d.step)
    [] s.k = "int" -> IF s.a[1] < 0 THEN <<s.a[1] + n + 1>> ELSE <<s.a[1] + 1>>
    [] OTHER -> Progression(Clip(Or(s.a, d.start), n), Clip(Or(s.b, d.stop), n), Or(s.c, d.step))
Valid(s, n) == s.k # "int" \/ (s.a[1] >= 0 - n /\ s.a[1] < n)
All(n) == [start |-> 0, stop |-> n, step |-> 1]

\* ------------------------------------------------------------ the window
Win0(nt) == [start |-> <<>>, stop |-> <<>>, step |-> <<>>, nt |-> nt]
Bounds(w) == [start |-> Or(w.start, 0), stop |-> Or(w.stop, w.nt), step |-> Or(w.step, 1)]
\* a time is given in thousandths of a sample: instants within 1/1000 of a sample are that sample
Sample(ms) == (ms + 1) \div 1000
CanSet(w, what, v) ==
  LET b == Bounds(w) IN
  CASE what = "start" -> v = <<>> \/ (0 <= v[1] /\ v[1] < b.stop)
    [] what = "stop" -> v = <<>> \/ (b.start < v[1] /\ v[1] <= w.nt)
    [] what = "step" -> v = <<>> \/ v[1] >= 1
    [] what = "tstart" -> v = <<>> \/ (0 <= v[1] /\ v[1] <= 1000 * (b.stop - 1))
    [] OTHER -> v = <<>> \/ (1000 * b.start <= v[1] /\ v[1] <= 1000 * (w.nt - 1))
Set(w, what, v) ==
  CASE what = "start" -> [w EXCEPT !.start = v]
    [] what = "stop" -> [w EXCEPT !.stop = v]
    [] what = "step" -> [w EXCEPT !.step = v]
    [] what = "tstart" -> [w EXCEPT !.start = IF v = <<>> THEN v ELSE <<Sample(v[1])>>]
    [] OTHER -> [w EXCEPT !.stop = IF v = <<>> THEN v ELSE <<Sample(v[1]) + 1>>]

\* ------------------------------------------------------- derived quantities
\* D: [tab: name -> rows, fs, H, o]  (H and the observers as polynomials)
Poly(D, p, r) == PolyEval(p, LAMBDA v : D.tab[v[1]][r][v[2]])
Scaled(k, s) == TLCEval([i \in 1..Len(s) |-> RMul(k, s[i])])
Obs(D, r) == TLCEval([i \in 1..Len(D.o) |-> Poly(D, D.o[i], r)])
Row(D, name, r) ==
  CASE name = "dtx" -> Scaled(D.fs, D.tab["dx"][r])
    [] name = "a" -> D.tab["dxH"][r] \o D.tab["z"][r] \o D.tab["u"][r]
    [] name = "b" -> Scaled(D.fs, D.tab["dx"][r]) \o D.tab["w"][r] \o D.tab["y"][r]
    [] name = "args" -> D.tab["x"][r] \o D.tab["dx"][r] \o D.tab["w"][r] \o D.tab["u"][r] \o D.tab["p"][r]
    [] name = "o" -> Obs(D, r)
    [] name = "args_o" -> D.tab["x"][r] \o D.tab["dx"][r] \o D.tab["w"][r] \o D.tab["u"][r] \o D.tab["p"][r] \o Obs(D, r)
    [] OTHER -> D.tab[name][r]
Slope(D, r) == RMul(D.fs, RDot(D.tab["dxH"][r], D.tab["dx"][r]))
Scalars == {"t", "E", "ps", "dtE", "dtEd"}
\* rows: the selected positions, step: their distance
Scalar(D, name, rows, step, k) ==
  LET r == rows[k] IN
  CASE name = "t" -> RDiv(RInt(r - 1), D.fs)
    [] name = "E" -> Poly(D, D.H, r)
    [] name = "ps" -> RDot(D.tab["u"][r], D.tab["y"][r])
    [] name = "dtE" -> Slope(D, r)
    [] OTHER -> IF k = Len(rows) THEN Slope(D, r)
                ELSE RDiv(RMul(D.fs, RSub(Poly(D, D.H, rows[k + 1]), Poly(D, D.H, r))), RInt(step))
Width(D, name) == IF Len(D.tab["u"]) = 0 THEN 0 ELSE Len(Row(D, name, 1))
StepOf(s, w) == IF s.k = "slice" THEN Or(s.c, Bounds(w).step) ELSE Bounds(w).step

\* [dim |-> 1 or 2, v |-> values]
Answer(D, w, q) ==
  LET rows == TLCEval(Select(q.ts, w.nt, Bounds(w)))
      step == StepOf(q.ts, w)
      gain(x) == IF q.gain = "1" THEN x ELSE RMul(q.gain, x)
  IN IF q.name \in Scalars
     THEN [dim |-> 1, v |-> TLCEval([k \in 1..Len(rows) |-> gain(Scalar(D, q.name, rows, step, k))])]
     ELSE LET n == Width(D, q.name)
              cols == TLCEval(Select(q.vs, n, All(n)))
          IN IF q.vs.k = "int"
             THEN [dim |-> 1, v |-> TLCEval([k \in 1..Len(rows) |-> gain(Row(D, q.name, rows[k])[cols[1]])])]
             ELSE [dim |-> 2, v |-> TLCEval([k \in 1..Len(rows) |-> LET R == Row(D, q.name, rows[k]) IN
                                               [j \in 1..Len(cols) |-> gain(R[cols[j]])]])]
=============================================================================
