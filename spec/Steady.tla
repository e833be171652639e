------------------------------- MODULE Steady -------------------------------
(* What an analysis owes to steady music whose tempo and harmony are known.     *)
(* Tempi in ten-thousandths of a BPM; keys 0..11 major, 12..23 minor.           *)
EXTENDS Base
\* within 5% of the true tempo, its half or its double
CloseTo(x, t) == Abs(x - t) <= t \div 20
Levels(t) == {t, t \div 2, 2 * t}
Right(x, t) == \E v \in Levels(t) : CloseTo(x, v)
Tonic(k) == k % 12
\* an analysis [st, bpm, key, dur] of a steady track of tempo t and triad of key k (-1: no harmony)
Owes(a, t, k) ==
  IF a.st # "ok" THEN {"C26.refused"} ELSE Failed(<<
    <<"C26.tempo", Fin(a.bpm) /\ Right(a.bpm, t)>>,
    <<"C26.tonic", k >= 0 => Tonic(a.key) = Tonic(k)>> >>)
=============================================================================
