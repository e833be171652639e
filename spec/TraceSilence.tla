---------------------------- MODULE TraceSilence ----------------------------
(* Events:                                                                     *)
(*  "trim"  small signals with integer samples xs (unit 1/64), threshold given  *)
(*          as thr2 = 1000 * (64 * threshold)^2; the spec frames it itself      *)
(*  "frames" large signals, logged as frame levels (millionths)                 *)
EXTENDS Silence, TraceKit
VARIABLE l

Energy(xs, a, b) == FoldFunctionOnSet(LAMBDA x, acc : x * x + acc, 0, xs, a..b)
FrameEnergy(e, k) == LET a == FrameStart(k, e.f) + 1  b == FrameEnd(k, e.n, e.f)
                     IN  <<Energy(e.xs, a, b), b - a + 1>>
\* classification of each frame: silent, audible, or too close to the threshold to tell
Class(e, k) == LET v == FrameEnergy(e, k)  lhs == v[1] * 1000  rhs == v[2] * e.thr2
               IN  IF e.exact THEN IF lhs <= rhs THEN "s" ELSE "a"
                   ELSE IF Abs(lhs - rhs) <= rhs \div 1000 + 1 THEN "?" ELSE IF lhs < rhs THEN "s" ELSE "a"
ClassL(e, k) == IF Abs(e.lev[k] - e.thr) <= 5 + e.thr \div 10000 THEN "?" ELSE IF e.lev[k] < e.thr THEN "s" ELSE "a"

MinFrames(e) == LET d == (e.ms * e.sr) \div 1000 IN { Ceil(Max2(0, d + x), Hop(e.f)) : x \in e.slack }
Conforms(e, sil, minF) == LET r == Regions(sil, minF, e.n, e.f)
                          IN  e.regs = r /\ (IF Kept2(r, e.n)[1] = Kept2(r, e.n)[2] THEN e.len = 0
                                             ELSE e.len > 0 /\ <<e.start, e.start + e.len>> = Kept2(r, e.n))
JudgeWith(e, sil) ==
  LET mf == MinFrames([e EXCEPT !.slack = IF e.slack = 1 THEN {-1, 0, 1} ELSE {0}])
      span == <<e.start, e.start + e.len>>
  IN Failed(<<
      <<"C07.ok",        e.status = "ok">>,
      <<"C07.slice",     e.status = "ok" => e.same>>,
      <<"C07.regions",   e.status = "ok" => WellFormed(e.regs, e.n) /\ OnlySilent(sil, e.regs, e.f)>>,
      <<"C07.audible",   e.status = "ok" /\ e.len > 0 => KeepsAudible(sil, e.n, e.f, span)>>,
      <<"C07.allsilent", e.status = "ok" => ((Audible(sil) = {}) <=> e.len = 0)>>,
      <<"C07.exact",     e.status = "ok" => \E m \in mf : Conforms(e, sil, m)>> >>)
Judge(e) ==
  IF Crashed(e) THEN {"C07.total", "C01.stage"}
  ELSE LET num == NumFrames(e.n, e.f)
           cls == [k \in 1..num |-> IF e.ev = "trim" THEN Class(e, k) ELSE ClassL(e, k)]
       IN  IF e.status = "panic" THEN {"C07.total", "C01.stage"}
           ELSE IF \E k \in 1..num : cls[k] = "?" THEN {}
           ELSE JudgeWith(e, [k \in 1..num |-> cls[k] = "s"])
Init == l = 1
Next == l <= Len(Trace) /\ Report(Trace[l], l, Judge(Trace[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
