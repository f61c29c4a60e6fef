----------------------------- MODULE DataTrace -----------------------------
(***************************************************************************)
(* Recorded histories of a real reader.  Traces[t]: nt, D (the raw table as *)
(* read from the file), sent (the inputs which had to be recorded), ev, obs *)
(* obs[k]: [exc, dim, v] for a query, [exc, start, stop, step, tstart,      *)
(* tstop] for a setting.                                                    *)
(***************************************************************************)
EXTENDS Data, Json
Traces == JsonDeserialize("traces.json")
VARIABLES tid, pos, win

Same(a, b, dim) == IF dim = 1 THEN CloseSeq(a, b) ELSE CloseMat(a, b)
Reads(w, o) == LET b == Bounds(w) IN o.start = b.start /\ o.stop = b.stop /\ o.step = b.step
\* the reader's times are those of its first and last possible rows
Times(D, w, o) == LET b == Bounds(w) IN Close(o.tstart, RDiv(RInt(b.start), D.fs)) /\ Close(o.tstop, RDiv(RInt(b.stop - 1), D.fs))
Judge(T, w, e, o) ==
  CASE o.exc # "" -> "exception"
    [] e.op = "set" -> IF ~Reads(Set(w, e.what, e.v), o) THEN "window"
                       ELSE IF ~Times(T.D, Set(w, e.what, e.v), o) THEN "window-time" ELSE ""
    [] e.op = "reopen" -> IF ~Reads(Win0(w.nt), o) THEN "window-after-reopening" ELSE ""
    [] OTHER -> LET a == TLCEval(Answer(T.D, w, e)) IN
                IF Len(o.v) # Len(a.v) \/ (a.v # <<>> /\ o.dim # a.dim) THEN "shape"
                ELSE IF ~Same(o.v, a.v, a.dim) THEN "values" ELSE ""
After(w, e) == CASE e.op = "set" -> Set(w, e.what, e.v) [] e.op = "reopen" -> Win0(w.nt) [] OTHER -> w
Recorded(T) == T.exc = "" /\ T.D.tab["u"] = T.sent.u /\ T.D.tab["p"] = T.sent.p
Verdict(c) == PrintT("VERDICT " \o ToString(tid) \o " " \o c \o " " \o ToString(pos))
TInit == tid \in 1..Len(Traces) /\ pos = 0 /\ win = Win0(Traces[tid].nt)
TNext ==
  /\ pos >= 0
  /\ LET T == Traces[tid]
         n == pos + 1
         c == IF pos = 0 /\ ~Recorded(T) THEN "recorded-inputs" ELSE Judge(T, win, T.ev[n], T.obs[n])
         last == c # "" \/ n = Len(T.ev)
     IN /\ (c # "") => Verdict(c)
        /\ (c = "" /\ last) => Verdict("ok")
        /\ pos' = IF last THEN 0 - 1 ELSE n
        /\ win' = IF last THEN win ELSE After(win, T.ev[n])
        /\ UNCHANGED tid
=============================================================================
