------------------------------- MODULE MC_Y25 -------------------------------
(* Class and predicates of every code point, 256 at a time. *)
EXTENDS Cases
MCSeeds == -2..(IF K > 1 THEN 8191 ELSE 4355) \cup {8191, 8192, 32768, 1048576, 8388607, -8388608, 4194304 + 256, -8388352}
Bit(m, k) == (m \div (2 ^ k)) % 2 = 1
MCTheorem(b) == \A i \in 0..255 :
    LET c == 256 * b + i
        k == Category(c)
        m == PredMask(c)
        is(j) == Bit(m, j)
    IN /\ k \in 0..29
       /\ is(0) <=> (is(6) \/ is(10))                      \* alpha-numeric: letter or number
       /\ is(1) => is(6)                                   \* cased: a letter
       /\ (is(7) \/ is(15)) => is(1)
       /\ is(4) <=> (is(6) \/ is(8) \/ is(10) \/ is(11) \/ is(14))
       /\ is(16) <=> (is(4) \/ is(12))                     \* visible: graphical or separator
       /\ is(9) => is(17)                                  \* a newline is white-space
       /\ is(12) => is(17)
       /\ is(13) <=> (c >= 55296 /\ c <= 57343)
       /\ is(5) => c < 128 /\ is(0)
       \* Exactly one of the major classes.
       /\ Cardinality({j \in {6, 8, 10, 11, 14, 12, 2, 3, 13} : is(j)}) = (IF k \in {28, 29} THEN 0 ELSE 1)
       \* Not assigned: the noncharacters and everything outside Unicode.
       /\ (c < 0 \/ c > 1114111 \/ (c % 65536) \in {65534, 65535}) => k = 29
       /\ (c >= 57344 /\ c <= 63743) => k = 28
MCScript(b) == <<<<"blk_class", b>>, <<"blk_preds", b>>>>
=============================================================================
