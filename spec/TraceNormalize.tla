--------------------------- MODULE TraceNormalize ---------------------------
EXTENDS Normalize, TraceKit
VARIABLE l
Tol == 15                                        \* 0.015 dB
Sig(e) == [silent |-> e.silent, gated |-> e.gated, peak |-> e.peak, rms |-> e.rms, loud |-> e.loud]
JudgeNorm(e) ==
  IF e.status # "ok" THEN {"C08.ok"}
  ELSE IF e.silent THEN Failed(<<
     <<"C08.silent",    e.same>>,
     <<"C08.silentgain", Fin(e.gdb) /\ Near(e.gdb, 0, 1)>> >>)
  ELSE IF ~(Fin(e.gdb) /\ Fin(e.opeak) /\ Fin(e.agdb)) THEN {"C08.finite"}
  ELSE LET s == Sig(e)
           \* where both the level target and the ceiling are within tolerance either may be taken
           g == Gain(e.method, s, e.lufs, e.headroom)
       IN Failed(<<
     <<"C08.len",      e.len = e.olen>>,
     <<"C08.onegain",  e.dev <= 20>>,                \* one gain for all samples (2e-5 of the peak)
     <<"C08.gain",     Near(e.agdb, g, Tol)>>,
     <<"C08.reported", Near(e.gdb, e.agdb, Tol)>>,
     <<"C08.noclip",   e.opeak <= 1>>,
     <<"C08.ceiling",  e.opeak <= Ceiling(e.method, e.headroom) + 1>>,
     <<"C08.peakrep",  Fin(e.rpeak) /\ Near(e.rpeak, e.peak, Tol)>>,
     <<"C08.loudness", (e.method = "loud" /\ ~e.gated) => (Fin(e.mE) /\ Abs(e.mE - MeanE(e.blocks)) * 200 <= MeanE(e.blocks) + 200)>>,
     <<"C08.gate",     e.method = "loud" => (e.gated <=> Gated(e.blocks) = <<>>)>> >>)
Judge(e) == IF Crashed(e) THEN {"C08.total", "C01.stage"}
            ELSE IF e.status = "panic" THEN {"C08.total", "C01.stage"}
            ELSE JudgeNorm(e)
Init == l = 1
Next == l <= Len(Trace) /\ Report(Trace[l], l, Judge(Trace[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
