---------------------------- MODULE MCKeyChanges ----------------------------
(* Segment after segment is heard, each with a key and a confidence; the        *)
(* tracker reports a change when the key moves and the two segments are         *)
(* confident enough together.                                                   *)
EXTENDS Key, IOUtils, Json
CONSTANTS Ks, Cs, N
VARIABLES heard, changes
vars == <<heard, changes>>
Bar == 200
Init == heard = <<>> /\ changes = <<>>
Moves(a, b) == a.k # b.k /\ a.c + b.c > 2 * Bar
Hear == /\ Len(heard) < N
        /\ \E k \in Ks, c \in Cs :
             LET s == [k |-> k, c |-> c] IN
             /\ heard' = Append(heard, s)
             /\ changes' = IF heard = <<>> THEN changes
                           ELSE IF Moves(heard[Len(heard)], s) THEN Append(changes, [at |-> Len(heard) + 1, from |-> heard[Len(heard)].k, to |-> k]) ELSE changes
Spec == Init /\ [][Hear]_vars
KeysOf(h) == [i \in DOMAIN h |-> h[i].k]
InOrder == \A i \in 1..(Len(changes) - 1) : changes[i].at < changes[i + 1].at
RealMoves == \A i \in DOMAIN changes : changes[i].from # changes[i].to /\ changes[i].from = heard[changes[i].at - 1].k /\ changes[i].to = heard[changes[i].at].k
\* with confident segments the changes tell the whole story
Story == (\A i \in DOMAIN heard : heard[i].c > Bar) =>
           \A i \in DOMAIN heard : LET past == { j \in DOMAIN changes : changes[j].at <= i } IN
             heard[i].k = (IF past = {} THEN heard[1].k ELSE changes[Max(past)].to)
Quiet == (\A i \in DOMAIN heard : heard[i].c <= Bar) => changes = <<>>
PrimaryHeard == heard # <<>> => Commonest(KeysOf(heard)) # {} /\ Commonest(KeysOf(heard)) \subseteq Range(KeysOf(heard))
\* what the real tracker is then fed: one frame per segment
Emit == TLCGet("stats").distinct > 0 /\ ndJsonSerialize(IOEnv.CASES, SetToSeq({ [h |-> s] : s \in UNION { [1..n -> [k : Ks, c : Cs]] : n \in 1..N } }))
=============================================================================
