---------------------------- MODULE DataMachine ----------------------------
(***************************************************************************)
(* Histories of window settings and queries on a reader.                   *)
(***************************************************************************)
EXTENDS Data, Json
CONSTANTS Nt,            \* set of numbers of rows
          Names,         \* variables: set of <<name, width>>
          MaxOps,
          Pick(_)
PickAll(S) == S
PickOne(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
VARIABLES win, hist
vars == <<win, hist>>
Init == \E n \in Pick(Nt) : win = Win0(n) /\ hist = <<>>

Opt(S) == {<<>>} \cup {<<v>> : v \in S}
Near(n) == {v \in {0, 1, 2, 3, n \div 2, n - 2, n - 1, n} : v >= 0}
Values(what) ==
  CASE what \in {"start", "stop"} -> Opt(Near(win.nt))
    [] what = "step" -> Opt({1, 2, 3, 7})
    [] OTHER -> Opt({1000 * v : v \in Near(win.nt)} \cup {1000 * v + 400 : v \in Near(win.nt)})
SetW == \E what \in Pick({"start", "stop", "step", "tstart", "tstop"}) :
          \E v \in Pick({v \in Values(what) : CanSet(win, what, v)}) :
             /\ win' = Set(win, what, v)
             /\ hist' = Append(hist, [op |-> "set", what |-> what, v |-> v])
\* selections in a range of n
Sels(n, open) ==
  {NoSel} \cup {[k |-> "int", a |-> <<v>>, b |-> <<>>, c |-> <<>>] : v \in (0 - n)..(n - 1)}
  \cup [k : {"slice"}, a : Opt({v \in {0, 1, 2, 0 - 1, 0 - 2, n - 1} : v >= 0 - n - 1}), b : Opt({n, n - 1, n + 2, 1, 2, 0 - 1, 0 - 2}), c : Opt(IF open THEN {1, 2, 3} ELSE {1, 2})]
Query == \E nm \in Pick(Names), g \in Pick({"1", "1", "2", "-1/2"}), st \in Pick({"call", "item"}) :
           \E ts \in Pick(Sels(win.nt, TRUE)), vs \in Pick(IF nm[2] = 0 THEN {NoSel} ELSE Sels(nm[2], FALSE)) :
             LET q == [op |-> "query", name |-> nm[1], ts |-> ts, vs |-> vs, gain |-> IF st = "item" THEN "1" ELSE g,
                       style |-> IF nm[1] = "dtEd" THEN "call" ELSE st]
             IN hist' = Append(hist, q) /\ UNCHANGED win
Reopen == hist' = Append(hist, [op |-> "reopen"]) /\ win' = Win0(win.nt)
Next == Len(hist) < MaxOps /\ (SetW \/ Query \/ (Len(hist) % 9 = 8 /\ Reopen))
SetNext == Len(hist) < MaxOps /\ SetW

\* ------------------------------------------------------------------ promises
D0 == [tab |-> [x |-> [r \in 1..win.nt |-> <<RInt(r), RInt(100 + r)>>], dx |-> [r \in 1..win.nt |-> <<"1", "1">>],
                dxH |-> [r \in 1..win.nt |-> <<RInt(r), RInt(100 + r)>>],
                u |-> [r \in 1..win.nt |-> <<"1">>], y |-> [r \in 1..win.nt |-> <<"1">>]],
       fs |-> "10", H |-> <<[c |-> "1", m |-> <<<<"x", 1>>>>]>>, o |-> <<>>]
Bnd == Bounds(win)
\* windows are never out of the record
InRecord == Bnd.start >= 0 /\ Bnd.start < Bnd.stop /\ Bnd.stop <= win.nt /\ Bnd.step >= 1
QT == [name |-> "t", ts |-> NoSel, vs |-> NoSel, gain |-> "1"]
QX == [name |-> "x", ts |-> NoSel, vs |-> NoSel, gain |-> "1"]
\* values and times are aligned, whatever the window
Aligned == LET T == Answer(D0, win, QT).v  X == Answer(D0, win, QX).v IN
           Len(T) = Len(X) /\ \A k \in 1..Len(T) : X[k][1] = RAdd(RMul(T[k], "10"), "1")
\* selecting rows of the full reading is reading the selection
QueryT == \A ts \in Sels(win.nt, TRUE) : Valid(ts, win.nt) =>
             LET rows == Select(ts, win.nt, Bnd) IN
                \A k \in 1..Len(rows) : rows[k] >= 1 /\ rows[k] <= win.nt /\ (k > 1 => rows[k] > rows[k - 1])
\* the mean of the slopes is the slope of the means
Emit == (Len(hist) = MaxOps) => PrintT("GEN " \o ToJson([nt |-> win.nt, ev |-> hist]))
=============================================================================
