------------------------------- MODULE MC_Y17 -------------------------------
(* Token iterators: walks over short texts, restarted and looked at between. *)
EXTENDS Explore
MCSeeds == Texts({<<97>>, <<44>>, <<195, 169>>}, 3) \cup {<<13, 10, 97, 10>>, <<97, 44, 128, 44>>, <<97, 44, 44, 97, 97, 44>>}
Fs == {<<"str", <<44>>>>, <<"str", <<44, 44>>>>, <<"of", <<44, 233>>>>, <<"nl">>, <<"run", <<44>>>>, <<"at", 1, 1>>,
       <<"at", 0, 2>>, <<"str", <<>>>>}
MCMenu(s, h) ==
    IF Len(h) = 1 THEN {<<"tok_new", f>> : f \in Fs}
    ELSE {<<"tok_next">>} \cup (IF h[Len(h)][1] = "tok_next" THEN {<<"tok_obs">>} ELSE {})
         \cup (IF Len(h) = 4 THEN {<<"tok_new", <<"str", <<97>>>>>>} ELSE {})
Piece(s, v) == Slice(s.text, v[1], v[1] + v[2])
Part(s) == Piece(s, s.tok.part)
Tok(s) == Piece(s, s.tok.token)
Rest(s) == Piece(s, s.tok.rest)
MCHolds(s, c, r, t) ==
    CASE c[1] = "tok_new" -> Rest(t) = t.text /\ Part(t) = <<>> /\ Tok(t) = <<>>
      [] c[1] = "tok_obs" -> t = s
      [] OTHER ->
           \* Each step cuts a part and a token off the rest; only the last part has no token.
           /\ r # THROW /\ s.tok.ph \in {"fresh", "at"} =>
                /\ r[2] = 1
                /\ Rest(s) = Part(t) \o Tok(t) \o Rest(t)
                /\ t.tok.ph = "at" <=> Tok(t) # <<>>
                /\ t.tok.ph = "end" => Part(t) = Rest(s) /\ Rest(t) = <<>>
                /\ t.tok.ph = "at" /\ t.tok.f[1] = "str" => Tok(t) = t.tok.f[2] /\ Occurrences(Part(t), t.tok.f[2], 0, Len(Part(t))) = <<>>
           \* The end is final.
           /\ s.tok.ph = "end" => t = s /\ r[2] = 0
=============================================================================
