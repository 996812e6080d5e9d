------------------------------- MODULE MC_Y01 -------------------------------
(* Encoding, for every code point and some values beyond, 256 at a time. *)
EXTENDS Cases
MCSeeds == -2..(IF K > 1 THEN 8191 ELSE 4355) \cup {8191, 8192, 32768, 1048576, 8388607, -8388608}
MinOf == <<0, 128, 2048, 65536>>
MCTheorem(b) == \A i \in 0..255 :
    LET c == 256 * b + i
        e == Enc(c)
    IN IF c >= 0 /\ c <= 1114111
       THEN /\ Len(e) \in 1..4 /\ c >= MinOf[Len(e)]
            /\ Len(e) < 4 => c < MinOf[Len(e) + 1]
            /\ UnitAt(e, 0, Len(e)) = <<0, Len(e), c>>
            /\ UnitBefore(e, 0, Len(e)) = <<0, Len(e), c>>
       ELSE e = <<>>
MCScript(b) ==
    On(IF b % 3 = 0 THEN <<>> ELSE IF b % 3 = 1 THEN <<65, 195>> ELSE [i \in 1..(b % 19) |-> 160 + i],
       <<<<"blk_encode", b>>>>
       \o IF b >= 0 /\ b < 4352 THEN <<<<"blk_decode", b, 0>>, <<"blk_decode", b, 1>>>> ELSE <<>>)
=============================================================================
