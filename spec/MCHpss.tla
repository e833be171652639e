------------------------------- MODULE MCHpss -------------------------------
EXTENDS Hpss, Json, IOUtils
CONSTANTS T, B, Vals, Steps
VARIABLES x, s, k, g
Specs == [1..T -> [1..B -> Vals]]
Init == x \in Specs /\ g \in 0..2 /\ s = <<x, x, FALSE>> /\ k = 0
Next == k < Steps /\ ~s[3] /\ s' = Step(x, s, g) /\ k' = k + 1 /\ UNCHANGED <<x, g>>
Spec == Init /\ [][Next]_<<x, s, k, g>>
Sound == k > 0 => /\ Conserved(x, s[1], s[2], 2) /\ Part(x, s[1], 1) /\ Part(x, s[2], 1) /\ Shape(x, s[1]) /\ Shape(x, s[2])
\* a tone held through all frames (one sounding bin) is harmonic
Tone == (\E b \in 1..B : \A t \in 1..T : \A c \in 1..B : (c # b => x[t][c] = 0) /\ x[t][b] = x[1][b]) /\ B >= 3 /\ g >= 1 /\ k > 0 /\ ~s[3]
          => \A t \in 1..T : \A b \in 2..(B - 1) : x[t][b] > 0 => s[1][t][b] >= s[2][t][b]
Cases == { [x |-> y, g |-> gg] : y \in Specs, gg \in 0..2 }
Dump == TLCGet("stats").distinct > 0 /\ ndJsonSerialize(IOEnv.CASES, SetToSeq(Cases))
=============================================================================
