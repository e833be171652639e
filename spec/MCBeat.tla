------------------------------- MODULE MCBeat -------------------------------
(* Beat tracking as a state machine: one lattice point per step, each point     *)
(* with no onset, an onset on it, one within or one outside the radius.         *)
EXTENDS Beat, Json, IOUtils
CONSTANTS N
VARIABLES pat, bpm, bpb, k, beats, down
vars == <<pat, bpm, bpb, k, beats, down>>
Bpms == {6000, 9000, 12000, 17400}
Jit(c) == CASE c = "on" -> 0 [] c = "in" -> 4000 [] c = "early" -> -4900 [] c = "out" -> 7000
Kinds == {"none", "on", "in", "early", "out"}
Onsets(p, b) == FoldLeft(LAMBDA acc, i : IF p[i] = "none" THEN acc ELSE Append(acc, Point(i, b) + Jit(p[i])), <<0>>, [i \in 1..N |-> i])
Ons == Onsets(pat, bpm)
Init == pat \in [1..N -> Kinds] /\ bpm \in Bpms /\ bpb \in {3, 4, 6} /\ k = 1 /\ beats = <<0>> /\ down = <<0>>
Bar == BarLen(bpb, bpm)
Step == /\ k <= N /\ k' = k + 1
        /\ IF pat[k] \in {"on", "in", "early"}
           THEN LET b == Point(k, bpm) IN
                /\ beats' = Append(beats, b)
                /\ down' = IF 10 * Abs(b - (down[Len(down)] + Bar)) <= Bar THEN Append(down, b) ELSE down
           ELSE UNCHANGED <<beats, down>>
        /\ UNCHANGED <<pat, bpm, bpb>>
Spec == Init /\ [][Step]_vars
Grid == GridOrdered(beats) /\ Nested(beats, down, down)
Bars == \A i \in 1..(Len(down) - 1) : Near(down[i + 1] - down[i], Bar, Bar \div 10)
Scan == IsDownbeats(beats, {down[i] : i \in DOMAIN down}, Bar, 12) /\ down = Downbeats(beats, Bar, Bar \div 10)
Tracked == k = N + 1 => IsTracked(beats, Ons, bpm, 3)
Even == (k > 1 /\ Len(beats) = k) => Stability(beats) >= M - 1000 /\ ~IsVariable(Gaps(beats)) /\ (Len(beats) >= 8 => MeterOk(Gaps(beats), 4, 10))
Cases == { [p |-> p, bpm |-> b] : p \in [1..N -> Kinds], b \in {9000, 12000} }
Dump == TLCGet("stats").distinct > 0 /\ ndJsonSerialize(IOEnv.CASES, SetToSeq({ [ons |-> Onsets(c.p, c.bpm), bpm |-> c.bpm] : c \in Cases }))
=============================================================================
