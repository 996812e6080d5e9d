------------------------------- MODULE MC_Y29 -------------------------------
(* Unescaping of all short texts of pieces of escape sequences. *)
EXTENDS Cases
U == {<<92>>, <<117>>, <<68, 56, 51, 68>>, <<68, 101, 48, 49>>, <<48, 48, 52, 49>>, <<120>>, <<52>>, <<56>>,
      <<110>>, <<10>>, <<195, 169>>, <<48>>}
V == {<<92, 117, 68, 56, 51, 68>>, <<92, 117, 68, 69, 48, 48>>, <<92, 117, 48, 48, 52, 49>>, <<92>>, <<65>>, <<92, 92>>,
      <<92, 120, 52, 49>>, <<92, 51, 55, 55>>, <<92, 120, 49, 49, 48, 48, 48, 48>>}
W == {<<92>>, <<85>>, <<48, 48, 48, 49>>, <<48, 48, 49, 49>>, <<70, 48, 48, 48>>, <<51>>, <<57>>, <<102>>}
MCSeeds == Texts(U, K) \cup Texts(V, IF K > 3 THEN 4 ELSE 3) \cup Texts(W, K)
           \cup {<<92, c>> : c \in 0..255} \cup {<<92, 120>> \o [i \in 1..n |-> 48] \o <<49, 50>> : n \in 0..12}
           \cup {<<92, 120>> \o [i \in 1..n |-> 102] : n \in 1..11}
MCTheorem(s) ==
    LET r == The(UnescapeR(s))
        f == FindEscapedR(s, 0)
    IN /\ Cardinality(UnescapeR(s)) = 1
       \* Text without a backslash is itself; plain text before or after changes nothing.
       /\ NextBackslash(s, 0) = -1 => r = <<"ok", s>> /\ Is(HasEscapedR(s), <<"ok", 0>>)
       /\ Is(UnescapeR(<<65, 195, 169>> \o s), IF r = THROW THEN THROW ELSE <<"ok", <<65, 195, 169>> \o r[2]>>)
       /\ r # THROW => Is(UnescapeR(s \o <<33>>), <<"ok", r[2] \o <<33>>>>)
       /\ r # THROW => Len(r[2]) <= Len(s)
       \* The finder finds what is translated.
       /\ NextBackslash(s, 0) # -1 =>
             /\ f = {THROW} => r = THROW
             /\ Is(HasEscapedR(s), <<"ok", 1>>) <=> f # {THROW}
             /\ r # THROW => LET x == The(f) IN ~Is(UnescapeR(Slice(s, x[2], x[2] + x[3])), THROW)
       \* Taking one character at a time gives the same but where the two are meant to differ.
       /\ (\A i \in 1..Len(s) : s[i] \notin {88, 120, 10}) /\ r # THROW /\ Valid(s) =>
             LET RECURSIVE take(_)
                 take(p) == LET u == Unescaped(s, p, Len(s))
                            IN IF u[1] = 0 THEN <<>> ELSE IF u[1] = -1 THEN <<-1>> ELSE Enc(u[3]) \o take(u[2])
                 t == take(0)
             IN t = r[2]
MCScript(s) ==
    On(s, <<<<"unescape">>, <<"unescape_in">>, <<"has_escaped">>>>
          \o [o \in 1..(IF Len(s) < 6 THEN Len(s) + 1 ELSE 3) |-> <<"find_escaped", o - 1>>])
=============================================================================
