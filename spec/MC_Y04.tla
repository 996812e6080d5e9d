------------------------------- MODULE MC_Y04 -------------------------------
(* Backward decoding mirrors forward decoding in every window. *)
EXTENDS Cases
B == {65, 128, 191, 195, 226, 240, 248}
MCSeeds == Strings(B, K) \cup {<<a, b>> \o q : q \in {<<243, 160, 191, 128>>, <<226, 130, 172>>, <<191, 191, 191>>}, a, b \in B}
Windows(s) == {<<lo, p>> \in (0..Len(s)) \X (0..Len(s)) : lo <= p}
MCTheorem(s) == \A w \in Windows(s) :
    LET u == UnitBefore(s, w[1], w[2])
        starts == {p \in w[1]..(w[2] - 1) : UnitAt(s, p, w[2]) # <<>> /\ UnitAt(s, p, w[2])[2] = w[2]}
    IN /\ Cardinality(starts) <= 1
       /\ u = <<>> <=> starts = {}
       /\ \A p \in starts : u = UnitAt(s, p, w[2])
       \* Reading the window forward meets the same units if it is well-formed.
       /\ LET f == Fwd(s, w[1], w[2])
              b == Bwd(s, w[1], w[2])
          IN f.bad = b.bad /\ (~f.bad => b.u = Rev(f.u))
MCScript(s) ==
    On(s, Concat(All(Windows(s), LAMBDA w :
       <<<<"decode_prev", w[1], w[2]>>, <<"safe_prev", w[1], w[2]>>,
         <<"view_set", w[1], w[2]>>, <<"pop_last">>>>)))
=============================================================================
