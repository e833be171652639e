----------------------------- MODULE TraceBatch -----------------------------
(* One event is one batch: ref holds what a process of its own reports for each *)
(* track, h the schedule with the digests the workers delivered.                *)
EXTENDS Batch, TraceKit
VARIABLE l
Walk(e) == FoldLeft(LAMBDA s, x : IF x[1] = "start" THEN (IF CanStart(s, x[2]) THEN Starts(s, x[2], x[3]) ELSE [s EXCEPT !.ok = FALSE])
                                  ELSE IF CanFinish(s, x[2]) THEN Finishes(s, x[2], x[3]) ELSE [s EXCEPT !.ok = FALSE],
                    [Fresh EXCEPT !.known = [t \in Tracks |-> e.ref[t]]], e.h)
Judge(e) == IF Crashed(e) THEN {"C23.total"} ELSE
  Failed(<< <<"C23.answered", \A t \in Tracks : e.ref[t] # 0>>,
            <<"C23.same", Walk(e).ok>>,
            <<"C23.drained", \A w \in Workers : Walk(e).running[w] = 0>> >>)
Init == l = 1
Next == l <= Len(Trace) /\ Report(Trace[l], l, Judge(Trace[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
