------------------------------ MODULE Consensus ------------------------------
(* Voting on onsets. A vote is a record [t, m]: position (samples) and method   *)
(* 1..4. Weights are integers on any common scale.                              *)
EXTENDS Base

\* All votes of the four lists, as a sequence ordered by position
Votes(lists) == LET all == FlattenSeq([m \in 1..4 |-> [i \in DOMAIN lists[m] |-> [t |-> lists[m][i], m |-> m]]])
                IN  SortSeq(all, LAMBDA a, b : a.t < b.t)

\* Declarative: the clusters are the maximal runs of votes with neighbouring gaps <= tol
CutAfter(v, tol) == { i \in 1..(Len(v) - 1) : v[i + 1].t - v[i].t > tol } \cup {Len(v)}
Clusters(v, tol) ==
  IF v = <<>> THEN <<>>
  ELSE LET cuts == SetToSortSeq(CutAfter(v, tol), <)
       IN  [k \in DOMAIN cuts |-> SubSeq(v, IF k = 1 THEN 1 ELSE cuts[k - 1] + 1, cuts[k])]

Methods(c) == { c[i].m : i \in DOMAIN c }
Weight(c, w) == FoldSeq(LAMBDA x, acc : w[x.m] + acc, 0, c)
Total(w) == w[1] + w[2] + w[3] + w[4]
SumT(c) == FoldSeq(LAMBDA x, acc : x.t + acc, 0, c)
\* millionths; at most one
Confidence(c, w) == IF Total(w) = 0 THEN 0 ELSE Min2(M, (Weight(c, w) * M) \div Total(w))
Centre(c) == SumT(c) \div Len(c)

-----------------------------------------------------------------------------
(* What a user relies on. A result is a set of clusters.                        *)
Partition(v, cs) == Sum([k \in DOMAIN cs |-> Len(cs[k])]) = Len(v) /\ \A k \in DOMAIN cs : cs[k] # <<>>
Separate(cs, tol) == \A k \in 1..(Len(cs) - 1) : cs[k + 1][1].t - Last(cs[k]).t > tol
Chained(cs, tol) == \A k \in DOMAIN cs : \A i \in 1..(Len(cs[k]) - 1) : cs[k][i + 1].t - cs[k][i].t <= tol
CentreInside(cs) == \A k \in DOMAIN cs : cs[k][1].t <= Centre(cs[k]) /\ Centre(cs[k]) <= Last(cs[k]).t
=============================================================================
