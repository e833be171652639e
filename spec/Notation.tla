------------------------------ MODULE Notation ------------------------------
(* The 24 keys, their names and their numeric (DJ) codes. A key is a record    *)
(* [mode, pc]; a code is a sequence of one-character strings.                  *)
EXTENDS Base

Keys == [mode : {"major", "minor"}, pc : 0..11]
Notes == <<"C", "C#", "D", "D#", "E", "F", "F#", "G", "G#", "A", "A#", "B">>
Name(k) == <<Notes[k.pc + 1], k.mode = "minor">>

\* Code number p and letter: steps of the number are steps of a fifth (7 semitones)
Tonic(mode, p) == IF mode = "major" THEN (7 * (p - 1)) % 12 ELSE (9 + 7 * (p - 1)) % 12
Letter(mode) == IF mode = "major" THEN "A" ELSE "B"
Number(k) == CHOOSE p \in 1..12 : Tonic(k.mode, p) = k.pc
Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
DigitSet == { Digits[i] : i \in DOMAIN Digits }
DigitOf(c) == (CHOOSE i \in DOMAIN Digits : Digits[i] = c) - 1
NumText(p) == IF p < 10 THEN <<Digits[p + 1]>> ELSE <<"1", Digits[p - 10 + 1]>>
Code(k) == Append(NumText(Number(k)), Letter(k.mode))

\* Parsing. Canonical: the code of a key. Decorated: the same with leading zeros or a
\* plus sign, which a number parser may or may not take. Everything else is refused.
RECURSIVE Value(_)
Value(s) == IF s = <<>> THEN 0 ELSE Min2(99, 10 * Value(Front(s)) + DigitOf(Last(s)))
NoKey == [mode |-> "none", pc |-> 0]
Canonical(s) == { k \in Keys : Code(k) = s }
Strip(s) == IF s # <<>> /\ Head(s) = "+" THEN Tail(s) ELSE s
Decorated(s) ==
  IF Len(s) < 2 \/ Last(s) \notin {"A", "B"} THEN {}
  ELSE LET n == Strip(Front(s)) IN
       IF n = <<>> \/ \E i \in DOMAIN n : n[i] \notin DigitSet THEN {}
       ELSE LET v == Value(n) IN
            IF v \in 1..12 THEN { [mode |-> IF Last(s) = "A" THEN "major" ELSE "minor",
                                   pc |-> Tonic(IF Last(s) = "A" THEN "major" ELSE "minor", v)] }
            ELSE {}
Parse(s) == IF Canonical(s) # {} THEN Canonical(s) ELSE Decorated(s) \cup {NoKey}

-----------------------------------------------------------------------------
Fifth(k) == [k EXCEPT !.pc = (k.pc + 7) % 12]
Bijective == /\ Cardinality({Name(k) : k \in Keys}) = 24
             /\ Cardinality({Code(k) : k \in Keys}) = 24
RoundTrip == \A k \in Keys : Parse(Code(k)) = {k}
FifthStep == \A k \in Keys : Number(Fifth(k)) = (Number(k) % 12) + 1
Relative == \A k \in Keys : k.mode = "major" =>
               Number([mode |-> "minor", pc |-> (k.pc + 9) % 12]) = Number(k)
=============================================================================
