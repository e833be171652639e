------------------------------ MODULE MCMixer ------------------------------
(* Two channels fed sample by sample.                                           *)
EXTENDS Mixer, Json, IOUtils
CONSTANTS R, MaxLen
VARIABLES left, right, mode, out
Vals == (0 - R)..R
Init == left = <<>> /\ right = <<>> /\ out = <<>> /\ mode \in Modes
Feed(a, b) == Len(left) < MaxLen /\ left' = Append(left, a) /\ right' = Append(right, b) /\ out' = Append(out, Mix1(mode, a, b)) /\ UNCHANGED mode
Next == \E a, b \in Vals : Feed(a, b)
Spec == Init /\ [][Next]_<<left, right, mode, out>>
Inv == /\ Len(out) = Len(left) /\ out = Mix(mode, left, right)
       /\ \A i \in DOMAIN left : Between(mode, left[i], right[i]) /\ Symmetric(mode, left[i], right[i]) /\ Odd(mode, left[i], right[i])
       /\ (left = right => \A i \in DOMAIN left : out[i] = 2 * left[i])
Seqs == UNION { [1..k -> Vals] : k \in 0..1 } \cup { <<a, b>> : a, b \in {-1, 0, 2} }
Dump == TLCGet("stats").distinct > 0 /\
        ndJsonSerialize(IOEnv.CASES, SetToSeq({ [x |-> x, y |-> y, m |-> m] : x \in Seqs, y \in Seqs, m \in Modes }))
=============================================================================
