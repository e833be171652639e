---------------------------- MODULE MCNormalize ----------------------------
EXTENDS Normalize
CONSTANTS Step, Methods
VARIABLES sig, method, lufs, headroom, gain, done
vars == <<sig, method, lufs, headroom, gain, done>>
Levels == { -60000 + Step * k : k \in 0..(72000 \div Step) }
Signals == { s \in [silent : BOOLEAN, gated : BOOLEAN, peak : Levels, rms : Levels, loud : Levels] :
               /\ s.rms <= s.peak /\ Abs(s.loud - s.rms) <= 18000 }
Init == /\ sig \in Signals /\ method \in Methods /\ lufs \in {-30000, -14000, -6000, 0} /\ headroom \in {0, 1000, 6000}
        /\ gain = 0 /\ done = FALSE
Next == /\ ~done /\ done' = TRUE
        /\ gain' = Gain(method, sig, lufs, headroom)
        /\ sig' = IF sig.silent THEN sig ELSE Apply(sig, gain')
        /\ UNCHANGED <<method, lufs, headroom>>
Spec == Init /\ [][Next]_vars
Inv == done => NeverClips(sig) /\ AtTarget(method, sig, lufs, headroom) /\ (sig.silent => gain = 0)
\* normalizing again changes nothing
Idem == done /\ ~sig.silent /\ method = "peak" => Gain(method, sig, lufs, headroom) = 0
=============================================================================
