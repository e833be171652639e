----------------------------- MODULE MCSilence -----------------------------
(* The scan as a state machine (one step per frame), explored for every short   *)
(* pattern of quiet and loud samples, frame size and minimum duration.          *)
EXTENDS Silence, Json, IOUtils
CONSTANTS MaxN, MaxF, MaxD
VARIABLES pat, f, d, sil, i, open, regs, pc
vars == <<pat, f, d, sil, i, open, regs, pc>>

Patterns == UNION { [1..n -> {0, 1}] : n \in 1..MaxN }
SilFrames(p, ff) == [k \in 1..NumFrames(Len(p), ff) |->
                       \A s \in (FrameStart(k, ff) + 1)..FrameEnd(k, Len(p), ff) : p[s] = 0]
n == Len(pat)
MinF == Ceil(d, Hop(f))
Init == /\ pat \in Patterns /\ f \in 1..MaxF /\ d \in 0..MaxD
        /\ sil = SilFrames(pat, f) /\ i = 1 /\ open = -1 /\ regs = <<>> /\ pc = "scan"
Enter == pc = "scan" /\ i <= Len(sil) /\ sil[i] /\ open = -1 /\ open' = i - 1 /\ i' = i + 1 /\ UNCHANGED <<pat, f, d, sil, regs, pc>>
Stay  == pc = "scan" /\ i <= Len(sil) /\ (sil[i] <=> open # -1) /\ i' = i + 1 /\ UNCHANGED <<pat, f, d, sil, open, regs, pc>>
Leave == /\ pc = "scan" /\ i <= Len(sil) /\ ~sil[i] /\ open # -1
         /\ regs' = IF i - 1 - open >= MinF \/ open = 0 THEN Append(regs, <<open * Hop(f), (i - 1) * Hop(f)>>) ELSE regs
         /\ open' = -1 /\ i' = i + 1 /\ UNCHANGED <<pat, f, d, sil, pc>>
Close == /\ pc = "scan" /\ i > Len(sil)
         /\ regs' = IF open # -1 /\ (Len(sil) - open >= MinF \/ open = 0) THEN Append(regs, <<open * Hop(f), n>>) ELSE regs
         /\ open' = -1 /\ pc' = "done" /\ UNCHANGED <<pat, f, d, sil, i>>
Next == Enter \/ Stay \/ Leave \/ Close
Spec == Init /\ [][Next]_vars

Span == Kept2(regs, n)
Refines == pc = "done" => regs = Regions(sil, MinF, n, f)
Safe == pc = "done" => /\ KeepsAudible(sil, n, f, Span) /\ DropsLeading(sil, f, Span)
                       /\ Trailing(sil, MinF, n, f, Span) /\ WellFormed(regs, n) /\ OnlySilent(sil, regs, f)
Dump == TLCGet("stats").distinct > 0 /\
        ndJsonSerialize(IOEnv.CASES, SetToSeq({ [p |-> p, f |-> ff, d |-> dd] : p \in Patterns, ff \in 1..MaxF, dd \in 0..MaxD }))
=============================================================================
