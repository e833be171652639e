------------------------------ MODULE Normalize ------------------------------
(* Level normalization. Levels and gains are in thousandths of a decibel.       *)
(* A signal is abstracted to its peak, RMS and loudness level.                  *)
EXTENDS Base

PeakGain(s, headroom) == -headroom - s.peak
RmsGain(s, lufs, headroom) == Min2((lufs + 3000 - headroom) - s.rms, -s.peak)
LoudGain(s, lufs, headroom) == IF s.gated THEN PeakGain(s, headroom)
                               ELSE Min2(lufs - s.loud, -headroom - s.peak)
Gain(method, s, lufs, headroom) ==
  IF s.silent THEN 0
  ELSE CASE method = "peak" -> PeakGain(s, headroom)
         [] method = "rms"  -> RmsGain(s, lufs, headroom)
         [] method = "loud" -> LoudGain(s, lufs, headroom)
Apply(s, g) == [s EXCEPT !.peak = @ + g, !.rms = @ + g, !.loud = @ + g]

\* what is promised about the normalized signal
NeverClips(s) == s.silent \/ s.peak <= 0
Ceiling(method, headroom) == IF method = "rms" THEN 0 ELSE -headroom
AtTarget(method, s, lufs, headroom) ==
  s.silent \/ (CASE method = "peak" -> s.peak = -headroom
                 [] method = "rms"  -> s.rms = lufs + 3000 - headroom \/ (s.peak = 0 /\ s.rms <= lufs + 3000 - headroom)
                 [] method = "loud" -> (~s.gated /\ s.loud = lufs) \/ (s.peak = -headroom /\ (s.gated \/ s.loud <= lufs)))

(* Loudness of a signal: blocks whose K-weighted energy exceeds the gate        *)
(* (-70 LUFS) are averaged. Energies in units of 10^-8.                         *)
GateE == 12
Gated(blocks) == SelectSeq(blocks, LAMBDA x : x > GateE)
MeanE(blocks) == LET g == Gated(blocks) IN Sum(g) \div Len(g)
=============================================================================
