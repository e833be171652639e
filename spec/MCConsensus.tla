----------------------------- MODULE MCConsensus -----------------------------
(* Greedy clustering, one vote at a time, as the implementation does it: a vote *)
(* joins the first cluster with a member within the tolerance. Explored for all *)
(* short vote sequences; it must produce the declarative clusters.              *)
EXTENDS Consensus, Json, IOUtils
CONSTANTS MaxT, MaxVotes, MaxTol, Ms
VARIABLES votes, tol, i, cs
Init == votes = <<>> /\ tol \in 1..MaxTol /\ i = 1 /\ cs = <<>>
LastT == IF votes = <<>> THEN 0 ELSE Last(votes).t
Near1(c, x) == \E k \in DOMAIN c : x.t - c[k].t <= tol
Take(x) ==
  /\ Len(votes) < MaxVotes
  /\ votes' = Append(votes, x)
  /\ LET js == { k \in DOMAIN cs : Near1(cs[k], x) } IN
       cs' = IF js = {} THEN Append(cs, <<x>>) ELSE [cs EXCEPT ![Min(js)] = Append(@, x)]
  /\ i' = i + 1 /\ UNCHANGED tol
Next == \E t \in LastT..MaxT, m \in Ms : Take([t |-> t, m |-> m])
Spec == Init /\ [][Next]_<<votes, tol, i, cs>>
Refines == cs = Clusters(votes, tol)
Safe == Partition(votes, cs) /\ Separate(cs, tol) /\ Chained(cs, tol) /\ CentreInside(cs)
W == <<3, 0, 2, 1>>
Bounded == \A k \in DOMAIN cs : Confidence(cs[k], W) \in 0..M
\* cases for the implementation: all sets of positions per method on a small range
Sub(s) == SetToSortSeq(s, <)
Small == { s \in SUBSET {0, 1, 3, 4} : Cardinality(s) <= 2 }
Tiny == { {}, {0}, {1}, {2, 4}, {5} }
Dump == TLCGet("stats").distinct > 0 /\
        ndJsonSerialize(IOEnv.CASES, SetToSeq({ [a |-> Sub(a), b |-> Sub(b), c |-> Sub(c), d |-> Sub(d), tol |-> tt] :
            a \in Small, b \in Small, c \in Tiny, d \in {{}, {2}, {0, 6}}, tt \in 1..2 }))
=============================================================================
