----------------------------- MODULE Confidence -----------------------------
(* The confidence report: what a user is told about how far to trust an        *)
(* analysis. An analysis is abstracted to                                      *)
(*   bpm  : whether a tempo was found                                          *)
(*   bc, kc, cl, g : raw tempo confidence, key confidence, key clarity and     *)
(*                   grid stability, in millionths (possibly out of range)     *)
(*   topics : the topics its warnings mention ("bpm", "key", "other")          *)
(*   flags  : the flags it carries                                             *)
EXTENDS Base

BpmConf(a) == IF ~a.bpm THEN 0
              ELSE LET b == Clamp(a.bc, 0, M)
                   IN  IF "bpm" \in a.topics THEN MulM(b, 700000) ELSE b

ClarityFactor(cl) == IF cl < 200000 THEN 600000 ELSE IF cl < 500000 THEN 850000 ELSE M

KeyConf(a) == IF a.kc <= 0 THEN 0
              ELSE LET k == MulM(Clamp(a.kc, 0, M), ClarityFactor(a.cl))
                   IN  IF "key" \in a.topics THEN MulM(k, 700000) ELSE k

Stability(a) == Clamp(a.g, 0, M)

\* hasB, hasK: a positive tempo / key confidence is available
Overall(hasB, hasK, b, k, g) ==
                    IF hasB /\ hasK
                      THEN Clamp(MulM(b, 400000) + MulM(k, 300000) + MulM(g, 300000), 0, M)
                    ELSE IF hasB THEN MulM(b, 600000)
                    ELSE IF hasK THEN MulM(k, 600000)
                    ELSE 0

Level(o) == IF o >= 700000 THEN "High" ELSE IF o < 500000 THEN "Low" ELSE "Medium"

\* Flags as the sequence in which they are reported
OwnFlags(b, k, g) ==    (IF b < 300000 THEN <<"MultimodalBpm">> ELSE <<>>)
                     \o (IF k < 200000 THEN <<"WeakTonality">> ELSE <<>>)
                     \o (IF g < 300000 THEN <<"TempoVariation">> ELSE <<>>)

ReportOf(a) ==
  LET b == BpmConf(a)  k == KeyConf(a)  g == Stability(a)  o == Overall(a.bpm /\ a.bc > 0, a.kc > 0, b, k, g)
  IN  [bc |-> b, kc |-> k, g |-> g, o |-> o, level |-> Level(o), flags |-> a.flags \o OwnFlags(b, k, g)]

-----------------------------------------------------------------------------
(* Design properties of the report, checked over every abstract analysis.      *)
InRange(r) == Unit(r.bc) /\ Unit(r.kc) /\ Unit(r.g) /\ Unit(r.o)
FailedIsZero(a, r) == (~a.bpm => r.bc = 0) /\ (a.kc <= 0 => r.kc = 0) /\ (r.bc = 0 /\ r.kc = 0 => r.o = 0)
OnlyLowered(a, r) == r.bc <= Max2(a.bc, 0) /\ r.kc <= Max2(a.kc, 0)
OverallBounded(r) == r.o <= Max2(r.bc, Max2(r.kc, r.g))
KeepsFlags(a, r) == IsPrefix(a.flags, r.flags)
\* b is nowhere better than a, and both found a tempo and a key
Worse(a, b) == /\ b.bpm = a.bpm /\ b.bc <= a.bc /\ b.kc <= a.kc /\ b.cl <= a.cl /\ b.g <= a.g
               /\ a.topics \subseteq b.topics
Monotone(a, b) == Worse(a, b) /\ ReportOf(b).bc > 0 /\ ReportOf(b).kc > 0 => ReportOf(b).o <= ReportOf(a).o
=============================================================================
