---------------------------- MODULE MCConfidence ----------------------------
EXTENDS Confidence, Json, IOUtils
Conf == {-100000, 0, 1000, 299999, 300000, 714286, 1000000, 1300000}
Clar == {0, 199999, 200000, 499999, 500000}
Stab == {-50000, 0, 299999, 300000, 1200000}
VARIABLES analysis, report

Topics == {{}, {"bpm"}, {"key"}, {"other"}, {"bpm", "key"}}
FlagLists == {<<>>, <<"OnsetDetectionAmbiguous">>}
Analyses == [bpm : BOOLEAN, bc : Conf, kc : Conf, cl : Clar, g : Stab, topics : Topics, flags : FlagLists]
None == [o |-> -1]
Init == analysis \in Analyses /\ report = None
\* one action of the system: deriving the report from a finished analysis
Derive == report = None /\ report' = ReportOf(analysis) /\ UNCHANGED analysis
Next == Derive
Spec == Init /\ [][Next]_<<analysis, report>>

Inv == report # None =>
          /\ InRange(report) /\ FailedIsZero(analysis, report) /\ OnlyLowered(analysis, report)
          /\ OverallBounded(report) /\ KeepsFlags(analysis, report)
\* lowering any one input by one grid step never raises the overall value
Lower(a) == { [a EXCEPT !.bc = v] : v \in {x \in Conf : x <= a.bc} }
       \cup { [a EXCEPT !.kc = v] : v \in {x \in Conf : x <= a.kc} }
       \cup { [a EXCEPT !.cl = v] : v \in {x \in Clar : x <= a.cl} }
       \cup { [a EXCEPT !.g = v]  : v \in {x \in Stab : x <= a.g} }
       \cup { [a EXCEPT !.topics = v] : v \in {t \in Topics : a.topics \subseteq t} }
Mono == report # None => \A b \in Lower(analysis) : Monotone(analysis, b)
Dump == TLCGet("stats").distinct > 0 /\ ndJsonSerialize(IOEnv.CASES, SetToSeq({ [a EXCEPT !.topics = SetToSeq(a.topics)] : a \in Analyses }))
=============================================================================
