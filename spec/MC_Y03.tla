------------------------------- MODULE MC_Y03 -------------------------------
(* Forward decoding in every window of every short byte string. *)
EXTENDS Cases
B == {65, 128, 191, 195, 226, 240, 248}
MCSeeds == Strings(B, K) \cup {q \o <<a, b>> : q \in {<<243, 160>>, <<247, 191>>, <<65, 240, 159>>}, a, b \in B}
Windows(s) == {<<p, hi>> \in (0..Len(s)) \X (0..Len(s)) : p <= hi}
MCTheorem(s) == \A w \in Windows(s) :
    LET u == UnitAt(s, w[1], w[2])
    IN /\ u # <<>> => /\ u[1] = w[1] /\ u[2] <= w[2] /\ u[2] - u[1] \in 1..4
                      \* A larger window makes no difference, a smaller one ends it.
                      /\ \A hi \in u[2]..Len(s) : UnitAt(s, w[1], hi) = u
                      /\ \A hi \in u[1]..(u[2] - 1) : UnitAt(s, w[1], hi) = <<>>
                      \* Exactly the first byte is no continuation byte.
                      /\ ~IsCont(s[u[1] + 1]) /\ \A k \in (u[1] + 2)..u[2] : IsCont(s[k])
                      /\ u[2] - u[1] = LeadLen(s[u[1] + 1])
       \* Failure in the whole text: no announcing byte, or too few continuations.
       /\ u = <<>> /\ w[1] < w[2] =>
             \/ LeadLen(s[w[1] + 1]) = 0
             \/ w[1] + LeadLen(s[w[1] + 1]) > w[2]
             \/ \E k \in 2..LeadLen(s[w[1] + 1]) : ~IsCont(s[w[1] + k])
       /\ \A r \in DecodeNextR(s, w[1], w[2]) : r[3] >= w[1] /\ r[3] <= w[2]
       /\ Cardinality(SafeNextR(s, w[1], w[2])) = 1
MCScript(s) ==
    On(s, Concat(All(Windows(s), LAMBDA w :
       <<<<"decode_next", w[1], w[2]>>, <<"safe_next", w[1], w[2]>>,
         <<"view_set", w[1], w[2]>>, <<"pop">>>>)))
=============================================================================
