------------------------------ MODULE TraceKit ------------------------------
(* Recorded observations of the implementation, one JSON object per line.      *)
EXTENDS Base, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Has(r, f) == f \in DOMAIN r
\* what a trace may never contain: a crash or a run that did not end
Crashed(e) == e.ev \in {"panic", "timeout"}
Report(e, l, bad) == \A b \in {bad} : IF b = {} THEN TRUE ELSE PrintT(<<"BAD", l, e.id, e.ev, b>>)
=============================================================================
