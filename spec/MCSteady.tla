------------------------------ MODULE MCSteady ------------------------------
(* The promise is neither empty nor inconsistent: for every tempo and every     *)
(* report, what is accepted lies at one metrical level only, a third of the     *)
(* range or more is refused, and a transposition of the music moves the tonic.  *)
EXTENDS Steady
CONSTANTS Step
VARIABLES t, x, k
vars == <<t, x, k>>
BPM(v) == v * 10000
Init == t \in { BPM(v) : v \in 70..170 } /\ x = BPM(40) /\ k = 0
Next == \/ x < BPM(240) /\ x' = x + Step /\ UNCHANGED <<t, k>>
        \/ x = BPM(40) /\ k < 23 /\ k' = k + 1 /\ UNCHANGED <<t, x>>
Spec == Init /\ [][Next]_vars
OneLevel == Cardinality({ v \in Levels(t) : CloseTo(x, v) }) <= 1
Refuses == (x > (t * 11) \div 10 /\ x < (t * 18) \div 10) \/ (x > (t * 6) \div 10 /\ x < (t * 9) \div 10) => ~Right(x, t)
Accepts == x = t => Owes([st |-> "ok", bpm |-> x, key |-> k], t, k) = {}
Transposes == \A n \in 1..11 : Owes([st |-> "ok", bpm |-> t, key |-> k], t, (k + n) % 12) # {}
=============================================================================
