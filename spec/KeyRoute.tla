------------------------------ MODULE KeyRoute ------------------------------
(* Which stages a configuration sends the audio through to find its key. k is  *)
(* a record of switches; the facts known only at run time are whether there is *)
(* a beat grid, whether the semitone axis could be built, and whether there    *)
(* are frames enough for several scales or for voting segments.                *)
EXTENDS Base
Switches == {"own", "hpss", "mask", "smooth", "log", "tune", "beat", "hpcp", "bass", "sharpen", "trim", "weight", "ensemble", "multi", "median", "vote", "mode", "bonus"}
Spectrum(k) == IF k.own THEN "own" ELSE "shared"
Conditioning(k) == IF k.hpss THEN "hpss" ELSE IF k.mask THEN "mask" ELSE IF k.smooth THEN "smooth" ELSE "none"
OnLog(k, axis) == k.log /\ axis
Tuned(k, axis) == k.tune /\ ~OnLog(k, axis)
ChromaKind(k, grid, axis) ==
  IF OnLog(k, axis) THEN "log"
  ELSE IF k.beat /\ grid THEN "beat"
  ELSE IF k.hpcp THEN (IF k.bass THEN "bass" ELSE "hpcp") ELSE "plain"
Single(k) == IF k.mode \/ k.bonus THEN "mode" ELSE "plain"
Detection(k, scales, segments) ==
  IF k.ensemble THEN "ensemble" ELSE IF k.multi /\ scales THEN "multi" ELSE IF k.median THEN "median" ELSE IF k.vote /\ segments THEN "vote" ELSE Single(k)
Bit(b) == IF b THEN 2 ELSE 1
Route(k) == [ spectrum |-> Spectrum(k), cond |-> Conditioning(k), log |-> k.log, single |-> Single(k),
              \* indexed by axis built, grid present
              chroma |-> << << ChromaKind(k, FALSE, FALSE), ChromaKind(k, TRUE, FALSE) >>, << ChromaKind(k, FALSE, TRUE), ChromaKind(k, TRUE, TRUE) >> >>,
              tune |-> << Tuned(k, FALSE), Tuned(k, TRUE) >>,
              sharpen |-> k.sharpen, trim |-> k.trim, weight |-> k.weight,
              \* indexed by enough frames for scales, for segments
              detect |-> << << Detection(k, FALSE, FALSE), Detection(k, FALSE, TRUE) >>, << Detection(k, TRUE, FALSE), Detection(k, TRUE, TRUE) >> >> ]
\* frames kept by edge trimming: n frames, fraction in percent -> <<start, stop>>
Half(x) == (x + 50) \div 100                                   \* round half up
Kept(n, pct) == LET p == Clamp(pct, 0, 49)  a == Half(n * p)  b == Half(n * (100 - p)) IN
                IF n >= 200 /\ b > a + 50 THEN <<a, b>> ELSE <<0, n>>
=============================================================================
