------------------------------- MODULE MC_Y12 -------------------------------
(* Substrings between all pairs of indexes, from either end. *)
EXTENDS Cases
U == {<<97>>, <<195, 169>>, <<204, 129>>, <<98>>}
W == {<<97>>, <<204, 129>>, <<128>>, <<226>>}
MCSeeds == Texts(U, K) \cup Texts(W, 2) \cup {<<97, 98>> \o q : q \in Texts(W, 2)}
Bytes(s, r) == Slice(s, r[2][1], r[2][1] + r[2][2])
CpSub(s, a, b) == Bytes(s, The(CpSubR(s, a, b)))
ChSub(s, a, b) == Bytes(s, The(CharSubR(s, a, b)))
Idx(n) == (-n - 2)..(n + 2)
\* What an index means, as a number of items from the start.
Resolve(i, n) == IF i >= 0 THEN IF i > n THEN n ELSE i ELSE IF n + i < 0 THEN 0 ELSE n + i
Part(items, a, b) == LET n == Len(items) IN Concat(SubSeq(items, Resolve(a, n) + 1, Resolve(b, n)))
CpItems(s) == LET q == Partition(s, 0, Len(s))
              IN [i \in 1..Len(q) |-> Slice(s, q[i], IF i < Len(q) THEN q[i + 1] ELSE Len(s))]
MCTheorem(s) ==
    /\ LET q == CpItems(s)
           n == Len(q)
       IN \A a, b \in Idx(n) \cup {HUGE, -HUGE, LEAST} : CpSub(s, a, b) = Part(q, a, b)
    /\ \A k \in 0..Len(s) : CpSub(s, 0, k) \o CpSub(s, k, HUGE) = s
    /\ Valid(s) =>
       /\ LET q == CharsOf(s)
              n == Len(q)
          IN \A a, b \in Idx(n) \cup {HUGE, -HUGE, LEAST} : Cardinality(CharSubR(s, a, b)) = 1 /\ ChSub(s, a, b) = Part(q, a, b)
       /\ \A k \in 0..Len(s) : ChSub(s, 0, k) \o ChSub(s, k, HUGE) = s
MCScript(s) ==
    LET I == Idx(CountCps(s)) \cup {HUGE, -HUGE, LEAST}
    IN On(s, Concat(All(I \X I, LAMBDA p : <<<<"cp_sub", p[1], p[2]>>, <<"char_sub", p[1], p[2]>>>>)))
=============================================================================
