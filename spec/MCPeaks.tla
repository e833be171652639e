------------------------------ MODULE MCPeaks ------------------------------
(* A streaming view: frames arrive one after the other.                         *)
EXTENDS Peaks, Json, IOUtils
CONSTANTS MaxLen, MaxLevel
VARIABLE levels
Init == levels = <<>>
Next == Len(levels) < MaxLen /\ \E x \in 0..MaxLevel : levels' = Append(levels, x)
Spec == Init /\ [][Next]_levels
R == Rises(levels)
P(n) == PctOnsets(R, n, 4)
Ok(n) == LET p == P(n) IN
          /\ \A i \in p : levels[i + 1] > levels[i]                 \* only at rises
          /\ \A i \in p : i \in 1..(Len(levels) - 1)
OnlyRises == Len(levels) >= 2 => \A n \in 0..4 : Ok(n)
Stationary == (\A i \in DOMAIN levels : levels[i] = levels[1]) => (Len(levels) >= 2 => P(2) = {})
Raise == Len(levels) >= 2 => \A n \in 0..3 : P(n + 1) \subseteq P(n)      \* a higher percentile reports no more
Scaled == Len(levels) >= 2 => PctOnsets(Rises([i \in DOMAIN levels |-> 4 * levels[i]]), 2, 4) = P(2)
\* one outlier, however large, does not move the robust threshold of five or more values beyond the others
Shift == Len(levels) >= 5 => \A i \in DOMAIN levels :
            LET far == [levels EXCEPT ![i] = 1000] IN Robust16(far, 8) <= 16 * (MaxLevel + 2 * MaxLevel)
Move == Len(levels) >= 1 => \A k \in {0, 6, 10} : Robust16([i \in DOMAIN levels |-> levels[i] + 7], k) = Robust16(levels, k) + 16 * 7
Cases == { [lv |-> s, num |-> n] : s \in UNION { [1..k -> 0..2] : k \in 1..6 }, n \in 0..4 }
Dump == TLCGet("stats").distinct > 0 /\ ndJsonSerialize(IOEnv.CASES, SetToSeq(Cases))
=============================================================================
