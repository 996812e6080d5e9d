------------------------------- MODULE MC_Y32 -------------------------------
(* Every operation on short texts of troublesome bytes, with extreme          *)
(* arguments: there always is a reply, an orderly one, and an exception       *)
(* leaves everything as it was.                                               *)
EXTENDS Cases
B == {65, 128, 195, 226, 240, 248, 13, 92}
MCSeeds == Strings(B, K) \cup {q \o <<b>> : q \in {<<240, 159, 152>>, <<92, 117, 100, 56, 48>>, <<101, 204, 129>>, <<13, 10>>}, b \in B}
N(s) == {0, 1, -1, Len(s), Len(s) + 1, -Len(s) - 1, HUGE, -HUGE, LEAST}
O(s) == {0, Len(s) \div 2, Len(s)}
P == {<<>>, <<65>>, <<128>>, <<195>>, <<13, 10>>}
C == {65, 128512, 1114112, -1}
M == {<<"in", <<65, 13>>>>, <<"in", <<>>>>, <<"set", 1, <<65, 65>>>>, <<"odd", <<>>>>}
F == {<<"str", <<>>>>, <<"str", <<65>>>>, <<"of", <<65, 13>>>>, <<"nl">>, <<"cistr", <<97>>>>, <<"ciof", <<97>>>>, <<"run", <<65, 128>>>>, <<"at", 0, 0>>, <<"at", 0, 2>>}
Plain == {"to_utf32", "is_valid", "count_chars", "count_cps", "reverse", "lower", "upper", "title", "to_decomposed", "to_composed",
          "escape_json", "has_escapable", "unescape", "unescape_in", "has_escaped"}
Calls(s) ==
    {<<a>> : a \in Plain}
    \cup {<<a, c>> : a \in {"append", "append_copy", "from_cp", "contains", "cp_case", "cls", "preds", "decomp"}, c \in C}
    \cup {<<a, c>> : a \in {"repair", "repair_in"}, c \in {63, 65533}}
    \cup {<<a, p, o>> : a \in {"find_first", "find_last", "ci_first", "ci_last"}, p \in P, o \in O(s)}
    \cup {<<a, p>> : a \in {"starts_with", "ends_with", "ci_starts", "ci_ends", "ci_compare", "ci_equal", "ci_less"}, p \in P}
    \cup {<<a, m, o>> : a \in {"ff", "fl"}, m \in M, o \in O(s)}
    \cup {<<a, o>> : a \in {"ffnl", "flnl", "next_char", "prev_char", "find_escapable", "find_escaped"}, o \in O(s)}
    \cup {<<a, n>> : a \in {"char_pos", "char_range", "cp_pos", "cp_at"}, n \in N(s)}
    \cup {<<a, n, m>> : a \in {"cp_sub", "char_sub"}, n, m \in N(s)}
    \cup {<<a, n, c>> : a \in {"ins_cp", "ins_char"}, n \in N(s), c \in C}
    \cup {<<a, n, p>> : a \in {"ins_cps", "ins_chars"}, n \in N(s), p \in P}
    \cup {<<a, n, m, <<120>>>> : a \in {"rep_cps", "rep_chars"}, n, m \in N(s)}
    \cup {<<a, p, q, n>> : a \in {"replace", "ci_replace"}, p \in P, q \in {<<>>, <<65, 65>>}, n \in {0, 1, HUGE, -1, -HUGE, LEAST}}
    \cup {<<"replace_cp", c, d, n>> : c, d \in C, n \in {HUGE, -1, LEAST}}
    \cup {<<"split", f, n, d>> : f \in F, n \in {-1, 0, 1}, d \in {0, 1}}
    \cup {<<a, m>> : a \in {"trim", "trim_start", "trim_end"}, m \in (M \ {<<"set", 1, <<65, 65>>>>}) \cup {<<"space">>}}
    \cup {<<a, p, q>> : a \in {"decode_next", "decode_prev", "safe_next", "safe_prev", "skip_next", "skip_prev"},
                        p \in {0}, q \in O(s)}
    \cup {<<"join", <<s, p>>, p>> : p \in P}
\* Calls that are made one after the other, on the view and on a token iterator.
Walks(s) == LET n == Len(s) + 1
            IN Concat(All({"pop", "pop_last", "remove", "remove_last"}, LAMBDA a : <<<<"view_set", 0, Len(s)>>>> \o [i \in 1..n |-> <<a>>]))
               \o <<<<"view_set", 0, Len(s)>>>> \o [i \in 1..n |-> <<"unescape_next", 0>>]
               \o Concat(All(F, LAMBDA f : <<<<"tok_new", f>>>> \o [i \in 1..n |-> <<"tok_next">>]))
MCTheorem(s) == \A c \in Calls(s) :
    LET e == Effects(Start(s), c)
    IN /\ e # {}
       /\ \A x \in e : Orderly(x[1]) /\ x[2].text = s /\ (x[1][1] = "throw" => x[2] = Start(s))
MCScript(s) == On(s, SetToSeq(Calls(s)) \o Walks(s))
=============================================================================
