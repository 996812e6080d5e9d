------------------------------- MODULE MC_Y28 -------------------------------
(* JSON escaping of every byte and of short byte strings. *)
EXTENDS Cases
B == {65, 10, 34, 92, 31, 128}
MCSeeds == {<<0, b>> : b \in 0..255} \cup {<<1, s>> : s \in Strings(B, K) \cup Texts({<<92, 117>>, <<8>>, <<195, 169>>, <<127>>}, 2)}
Text(x) == IF x[1] = 0 THEN <<x[2]>> ELSE x[2]
MCTheorem(x) ==
    LET s == Text(x)
        e == EscapeJson(s)
    IN /\ Is(UnescapeR(e), <<"ok", s>>)
       /\ \A i \in 1..Len(e) : e[i] >= 32
       \* Every quote or backslash in it belongs to an escape sequence.
       /\ Len(SelectSeq(e, LAMBDA b : b = 34)) = Len(SelectSeq(s, LAMBDA b : b = 34))
       /\ (\A i \in 1..Len(s) : ~Escapable(s[i])) <=> e = s
       /\ Is(HasEscapableR(s), <<"ok", 0>>) <=> e = s
       /\ e = Concat([i \in 1..Len(s) |-> EscapeJson(<<s[i]>>)])
       /\ x[1] = 0 => /\ Len(e) \in {1, 2, 6}
                      /\ Len(e) = 6 => Slice(e, 0, 4) = <<92, 117, 48, 48>>
                      /\ Len(e) # 1 <=> (x[2] < 32 \/ x[2] \in {34, 92})
MCScript(x) ==
    LET s == Text(x)
        t == IF x[1] = 0 THEN <<65, x[2], x[2], 66>> ELSE s
    IN On(t, <<<<"has_escapable">>>> \o [o \in 1..(Len(t) + 1) |-> <<"find_escapable", o - 1>>]
             \o <<<<"escape_json">>, <<"keep">>, <<"unescape">>, <<"has_escapable">>, <<"escape_json">>, <<"keep">>, <<"unescape_in">>>>)
=============================================================================
