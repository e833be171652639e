------------------------------- MODULE MCTempo -------------------------------
(* The tempo tracker fed with onsets at a steady true tempo: whatever the start *)
(* within reach, it gets to the true tempo and stays there.                     *)
EXTENDS Tempo, Json, IOUtils
CONSTANTS NOns, Targets, Offsets
VARIABLES target, cur, hist
vars == <<target, cur, hist>>
Ons(t) == [i \in 1..NOns |-> Point(i - 1, t)]
Init == target \in Targets /\ cur \in { target + o - 500 : o \in Offsets } /\ hist = <<cur>>
Update == /\ Len(hist) < 6 /\ Usable(cur)
          /\ \E c \in { x \in { y : y \in BestFit(Ons(target), cur) } : TRUE } : cur' = c /\ hist' = Append(hist, c)
          /\ UNCHANGED target
Refuse == UNCHANGED vars                      \* no onsets: nothing changes
Next == Update \/ Refuse
Spec == Init /\ [][Next]_vars /\ WF_vars(Update)
Bounded == \A i \in 1..(Len(hist) - 1) : Abs(hist[i + 1] - hist[i]) <= Reach \/ hist[i] < Lo \/ hist[i] > Hi
InRange == \A i \in 2..Len(hist) : hist[i] >= Lo /\ hist[i] <= Hi
History == hist[Len(hist)] = cur
AppendOnly == [][hist' = hist \/ (Len(hist') = Len(hist) + 1 /\ SubSeq(hist', 1, Len(hist)) = hist /\ hist'[Len(hist')] = cur')]_vars
Converges == <>[](Near(cur, target, 50))
Cases == { [t |-> t, o |-> t + o - 500] : t \in Targets, o \in Offsets }
Dump == TLCGet("stats").distinct > 0 /\ ndJsonSerialize(IOEnv.CASES, SetToSeq(Cases))
=============================================================================
