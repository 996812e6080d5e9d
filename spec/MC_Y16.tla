------------------------------- MODULE MC_Y16 -------------------------------
(* Splitting and joining of short texts. *)
EXTENDS Cases
U == {<<97>>, <<98>>, <<195, 169>>}
MCSeeds == Texts(U, K) \cup Texts({<<97>>, <<98>>, <<195>>, <<10>>}, 3)
Fs == {<<"str", <<97>>>>, <<"str", <<97, 98>>>>, <<"str", <<97, 97>>>>, <<"str", <<>>>>, <<"of", <<97, 233>>>>,
       <<"of", <<>>>>, <<"nl">>, <<"run", <<97>>>>, <<"at", 1, 1>>, <<"at", 0, 2>>, <<"at", 0, 1>>}
Ns == {0, 1, 2, 3, HUGE}
Cut(s, v) == [i \in 1..Len(v) |-> Slice(s, v[i][1], v[i][1] + v[i][2])]
Parts(s, f, n, d) == Cut(s, The(SplitR(f, s, n, d))[2])
MCTheorem(s) ==
    /\ \A f \in Fs, n \in Ns :
          Cardinality(SplitR(f, s, n, 0)) = 1 /\ The(SplitR(f, s, n, 0)) # THROW =>
          LET p == Parts(s, f, n, 0)
              all == Parts(s, f, HUGE, 0)
          IN /\ Len(p) \in 1..(n + 1)
             /\ Len(p) <= n => p = all
             /\ The(SplitR(f, s, HUGE, 0)) # THROW => \A i \in 1..(Len(p) - 1) : p[i] = all[i]
             \* With a known token, joining undoes splitting.
             /\ f[1] = "str" => Join(p, f[2]) = s
             /\ f[1] = "of" => Sum([i \in 1..Len(p) |-> Len(p[i])]) <= Len(s)
             \* Nothing is left in the parts but the last.
             /\ f[1] = "str" /\ f[2] # <<>> => \A i \in 1..(Len(p) - 1) : Occurrences(p[i], f[2], 0, Len(p[i])) = <<>>
    /\ \A f \in Fs : Cardinality(SplitR(f, s, HUGE, 1)) = 1 /\ The(SplitR(f, s, HUGE, 1)) # THROW =>
          Parts(s, f, HUGE, 1) = SelectSeq(Parts(s, f, HUGE, 0), LAMBDA x : x # <<>>)
    /\ \A f \in Fs, n \in Ns : The(SplitR(f, s, n, 1)) # THROW =>
          \A i \in 1..Len(Parts(s, f, n, 1)) : Parts(s, f, n, 1)[i] # <<>>
MCScript(s) ==
    On(s, All(Fs \X {-1, 0, 1, 2, 3}, LAMBDA x : <<"split", x[1], x[2], 0>>)
          \o All(Fs \X {-1, 0, 1, 2, 3}, LAMBDA x : <<"split", x[1], x[2], 1>>)
          \o <<<<"join", <<>>, s>>, <<"join", <<s>>, <<97>>>>, <<"join", <<s, <<98>>>>, s>>,
               <<"join", <<<<>>, s, <<>>, <<97>>>>, <<44>>>>, <<"join", <<s, s, s>>, <<>>>>>>)
=============================================================================
