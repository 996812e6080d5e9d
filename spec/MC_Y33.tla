------------------------------- MODULE MC_Y33 -------------------------------
(* The state machine hides nothing: replies to calls on the text depend on    *)
(* the text alone, and the view, the token iterator and the set do not        *)
(* influence each other, whatever calls came before.                          *)
EXTENDS Explore
MCSeeds == {<<97, 44, 195, 169, 44>>, <<92, 110, 204, 129, 13, 10>>, <<44, 128, 65>>, <<>>}
Edits == {<<"replace", <<44>>, <<97, 97>>, HUGE>>, <<"reverse">>, <<"upper">>, <<"unescape">>, <<"append", 769>>,
          <<"trim", <<"in", <<44>>>>>>, <<"ins_chars", 1, <<44>>>>, <<"to_composed">>}
Asks == {<<"char_pos", 1>>, <<"find_last", <<44>>, HUGE>>, <<"split", <<"str", <<44>>>>, 1, 0>>, <<"ci_compare", <<65>>>>}
Views == {<<"pop">>, <<"remove_last">>, <<"unescape_next", 0>>}
Toks == {<<"tok_new", <<"str", <<44>>>>>>, <<"tok_next">>}
Sets == {<<"set_cp", 97>>, <<"set_neg", 1>>, <<"set_has", <<97, 98>>>>}
MCMenu(s, h) == Edits \cup Asks \cup Views \cup Toks \cup Sets \cup (IF h[Len(h)] \in Edits THEN {<<"keep">>} ELSE {})
Only(s, c) == IF c \in Views THEN [Start(s.text) EXCEPT !.lo = s.lo, !.hi = s.hi]
              ELSE IF c \in Toks THEN [Start(s.text) EXCEPT !.tok = s.tok]
              ELSE IF c \in Sets THEN [Start(s.text) EXCEPT !.set = s.set]
              ELSE IF c = <<"keep">> THEN [Start(s.text) EXCEPT !.res = s.res]
              ELSE Start(s.text)
MCHolds(s, c, r, t) ==
    \* The reply would be the same were the other parts of the state fresh.
    /\ {x[1] : x \in Effects(Only(s, c), c)} = {x[1] : x \in Effects(s, c)}
    /\ c \in Views => t = [s EXCEPT !.lo = t.lo, !.hi = t.hi]
    /\ c \in Toks => t = [s EXCEPT !.tok = t.tok]
    /\ c \in Sets => t = [s EXCEPT !.set = t.set]
    /\ c \in Asks => t = s
    /\ c \in Edits => t = [s EXCEPT !.res = t.res]
=============================================================================
