------------------------------- MODULE MC_Y10 -------------------------------
(* Characters counted from both ends of short texts with combining marks. *)
EXTENDS Cases
U == {<<97>>, <<195, 169>>, <<204, 129>>, <<226, 131, 157>>, <<226, 130, 172>>}
W == {<<97>>, <<204, 129>>, <<128>>, <<195>>}
MCSeeds == Texts(U, K) \cup Texts(W, 3) \cup {q \o <<243, 160, 132, 128>> \o r : q, r \in Texts({<<97>>, <<204, 129>>}, 1)}
RECURSIVE NextChain(_, _)
NextChain(s, p) == LET r == NextChar(s, p)
                   IN IF r[3] = 0 THEN <<>> ELSE <<<<r[2], r[2] + r[3]>>>> \o NextChain(s, r[2] + r[3])
RECURSIVE PrevChain(_, _)
PrevChain(s, p) == LET r == PrevChar(s, p)
                   IN IF r[3] = 0 THEN <<>> ELSE PrevChain(s, r[2]) \o <<<<r[2], r[2] + r[3]>>>>
MCTheorem(s) == Valid(s) =>
    LET q == NextChain(s, 0)
        n == Len(q)
    IN /\ PrevChain(s, Len(s)) = q
       /\ CountChars(s) = <<"ok", n>>
       /\ [i \in 1..n |-> Slice(s, q[i][1], q[i][2])] = CharsOf(s)
       /\ Concat(CharsOf(s)) = s
       /\ \A i \in 1..n :
             /\ CharRange(s, i - 1) = <<"ok", q[i][1], q[i][2] - q[i][1]>>
             /\ CharRange(s, i - 1 - n) = CharRange(s, i - 1)
             /\ CharPos(s, 0, Len(s), i - 1) = <<"ok", q[i][1]>>
             /\ CharPos(s, 0, Len(s), i - 1 - n) = <<"ok", q[i][1]>>
             \* Only the first code point of a character is no mark, but for the text's start.
             /\ LET f == Fwd(s, q[i][1], q[i][2]).u
                IN (i > 1 => ~IsMark(f[1][3])) /\ \A k \in 2..Len(f) : IsMark(f[k][3])
       /\ CharPos(s, 0, Len(s), n) = <<"ok", Len(s)>>
       /\ \A i \in 1..3 : /\ CharPos(s, 0, Len(s), n + i) = <<"ok", NPOS>> /\ CharPos(s, 0, Len(s), -n - i) = <<"ok", NPOS>>
                          /\ CharRange(s, n + i - 1)[3] = 0 /\ CharRange(s, -n - i)[3] = 0
Idx(s) == (-Len(s) - 2)..(Len(s) + 2)
MCScript(s) ==
    On(s, <<<<"count_chars">>>>
       \o Concat(All(Idx(s) \cup {HUGE, -HUGE, LEAST}, LAMBDA n : <<<<"char_pos", n>>, <<"char_range", n>>>>))
       \o Concat([o \in 1..(Len(s) + 1) |-> <<<<"next_char", o - 1>>, <<"prev_char", o - 1>>>>]))
=============================================================================
