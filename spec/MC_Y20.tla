------------------------------- MODULE MC_Y20 -------------------------------
(* Case mapping of every code point, 256 at a time. *)
EXTENDS Cases
MCSeeds == -2..(IF K > 1 THEN 8191 ELSE 4355) \cup {8191, 8192, 32768, 1048576, 8388607, -8388608}
MCTheorem(b) == \A i \in 0..255 :
    LET c == 256 * b + i
        u == ToUpper(c)
        l == ToLower(c)
        t == ToTitle(c)
    IN IF c < 0 \/ c > 1114111 THEN u = c /\ l = c /\ t = c
       ELSE /\ InUnicode(u) /\ InUnicode(l) /\ InUnicode(t)
            /\ ToUpper(u) = u /\ ToLower(l) = l /\ ToUpper(t) = u
            /\ Category(c) = 0 => u = c
            /\ Category(c) = 1 => l = c
            /\ (c >= 97 /\ c <= 122) => u = c - 32 /\ t = c - 32
            /\ (c >= 65 /\ c <= 90) => l = c + 32
            /\ c < 128 => (u # c <=> Category(c) = 1) /\ (l # c <=> Category(c) = 0)
            /\ c \in SameUpper(c) /\ \A x \in SameUpper(c) : ToUpper(x) = u
MCScript(b) == <<<<"blk_lower", b>>, <<"blk_upper", b>>, <<"blk_title", b>>>>
=============================================================================
