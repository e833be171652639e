----------------------------- MODULE MCNotation -----------------------------
(* A parser reading a text one character at a time: every text over the        *)
(* alphabet up to the bound is a state.                                        *)
EXTENDS Notation, Json, IOUtils
CONSTANTS MaxLen
VARIABLE text
Alphabet == {"0", "1", "2", "9", "A", "B", "a", "+", "-", " ", "é", "音", "."}
Init == text = <<>>
Next == Len(text) < MaxLen /\ \E c \in Alphabet : text' = Append(text, c)
Spec == Init /\ [][Next]_text
\* at most one key per text, and only texts ending in a letter of the notation name one
Deterministic == Cardinality(Parse(text) \ {NoKey}) <= 1
OnlyCodes == (Parse(text) # {NoKey}) => Last(text) \in {"A", "B"} /\ Len(text) >= 2
Laws == Bijective /\ RoundTrip /\ FifthStep /\ Relative
ASSUME Laws
Texts == UNION { [1..n -> Alphabet] : n \in 0..MaxLen }
Dump == TLCGet("stats").distinct > 0 /\ ndJsonSerialize(IOEnv.CASES, SetToSeq({ [t |-> t] : t \in Texts }))
=============================================================================
