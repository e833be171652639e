----------------------------- MODULE MCSegments -----------------------------
(* Overlapping tempo windows over growing beat lists: they are ordered, lie in  *)
(* the span of the beats and together cover it; duplicates between windows are  *)
(* removed by the merge.                                                        *)
EXTENDS Beat, Json, IOUtils
CONSTANTS MaxBeats
VARIABLES beats
GapSet == {40000, 50000, 90000, 250000}
Init == beats = <<0>>
Next == Len(beats) < MaxBeats /\ \E g \in GapSet : beats' = Append(beats, beats[Len(beats)] + g)
Spec == Init /\ [][Next]_beats
Wins == 1..NumWin(beats)
End == beats[Len(beats)]
Long == ~Short(beats)
Ordered == Long => \A k \in Wins : WinStart(beats, k) < WinEnd(beats, k) /\ WinEnd(beats, k) <= End /\ WinStart(beats, k) >= beats[1]
Cover == Long => \A i \in DOMAIN beats : \E k \in Wins : beats[i] >= WinStart(beats, k) /\ beats[i] <= WinEnd(beats, k)
NoGap == Long => \A k \in Wins : k > 1 => WinStart(beats, k) <= WinEnd(beats, k - 1)
Kept(k) == Len(InWin(beats, WinStart(beats, k), WinEnd(beats, k))) >= 3
Segs == LET ks == SetToSortSeq({ k \in Wins : Kept(k) }, <) IN
        [i \in DOMAIN ks |-> [a |-> WinStart(beats, ks[i]), b |-> WinEnd(beats, ks[i]), var |-> FALSE, re |-> <<>>]]
\* keeping every segment's own beats gives back exactly the beats that lie in some segment
Merge == Long => LET s == Segs IN
           Refined(beats, s) = IF s = <<>> THEN beats ELSE SelectSeq(beats, LAMBDA x : \E i \in DOMAIN s : x >= s[i].a /\ x <= s[i].b)
Var == Long => \A k \in Wins : LET g == Gaps(InWin(beats, WinStart(beats, k), WinEnd(beats, k))) IN
           ((\A i \in DOMAIN g : g[i] = g[1]) => ~IsVariable(g)) /\ SegConf(g) >= 0 /\ SegConf(g) <= M
All == [1..(MaxBeats - 1) -> GapSet]
FromGaps(g) == FoldLeft(LAMBDA acc, x : Append(acc, acc[Len(acc)] + x), <<0>>, g)
Dump == TLCGet("stats").distinct > 0 /\ ndJsonSerialize(IOEnv.CASES, SetToSeq({ [beats |-> FromGaps(g)] : g \in All }))
=============================================================================
