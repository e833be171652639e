------------------------------- MODULE Silence -------------------------------
(* Leading/trailing silence removal. The signal is a sequence of n samples cut  *)
(* into frames of f samples every hop = max(1, f/2) samples; a frame is silent  *)
(* or audible. Positions are 0-based sample indices, intervals half open.       *)
EXTENDS Base

Hop(f) == Max2(1, f \div 2)
NumFrames(n, f) == IF n >= f THEN (n - f) \div Hop(f) + 1 ELSE 1
FrameStart(i, f) == (i - 1) * Hop(f)                     \* frames are numbered from 1
FrameEnd(i, n, f) == Min2(FrameStart(i, f) + f, n)

\* Maximal runs of silent frames, as [a, b) with a, b 0-based frame numbers
RunStarts(sil) == { a \in 0..(Len(sil) - 1) : sil[a + 1] /\ (a = 0 \/ ~sil[a]) }
RunEnds(sil) == { b \in 1..Len(sil) : sil[b] /\ (b = Len(sil) \/ ~sil[b + 1]) }
Runs(sil) == LET E == RunEnds(sil) IN { <<a, Min({b \in E : b > a})>> : a \in RunStarts(sil) }

\* A silence counts if it is leading or lasts at least minF frames
Kept(r, minF) == r[1] = 0 \/ r[2] - r[1] >= minF
Region(r, n, f, num) == << r[1] * Hop(f), IF r[2] < num THEN r[2] * Hop(f) ELSE n >>
Regions(sil, minF, n, f) ==
  LET R == { Region(r, n, f, Len(sil)) : r \in { x \in Runs(sil) : Kept(x, minF) } }
  IN  SetToSortSeq(R, LAMBDA x, y : x[1] < y[1])

TrimStart(regs, n) == IF regs # <<>> /\ regs[1][1] = 0 THEN regs[1][2] ELSE 0
TrimEnd(regs, n) == IF regs # <<>> /\ regs[Len(regs)][2] = n THEN regs[Len(regs)][1] ELSE n
\* the kept part of the signal, [start, end)
Kept2(regs, n) == LET e == TrimEnd(regs, n)  s == Min2(TrimStart(regs, n), e) IN <<s, e>>

-----------------------------------------------------------------------------
(* What a user relies on, independent of how the scan is done.                  *)
Audible(sil) == { i \in DOMAIN sil : ~sil[i] }
\* nothing from the first to the last audible frame is lost, and a fully silent signal vanishes
KeepsAudible(sil, n, f, span) ==
  IF Audible(sil) = {} THEN span[1] = span[2]
  ELSE span[1] <= FrameStart(Min(Audible(sil)), f) /\ span[2] >= Min2(n, FrameStart(Max(Audible(sil)), f) + Hop(f))
\* all of the leading silence goes
DropsLeading(sil, f, span) == Audible(sil) # {} => span[1] = FrameStart(Min(Audible(sil)), f)
\* trailing silence goes if it is long enough and stays otherwise
Trailing(sil, minF, n, f, span) ==
  Audible(sil) # {} =>
    LET k == Len(sil) - Max(Audible(sil)) IN
    IF k > 0 /\ k >= minF THEN span[2] = Max(Audible(sil)) * Hop(f) ELSE span[2] = n
WellFormed(regs, n) ==
  /\ \A i \in DOMAIN regs : 0 <= regs[i][1] /\ regs[i][1] < regs[i][2] /\ regs[i][2] <= n
  /\ \A i \in 1..(Len(regs) - 1) : regs[i][2] <= regs[i + 1][1]
OnlySilent(sil, regs, f) ==
  \A i \in DOMAIN regs : \A k \in DOMAIN sil :
     FrameStart(k, f) >= regs[i][1] /\ FrameStart(k, f) < regs[i][2] => sil[k]
=============================================================================
