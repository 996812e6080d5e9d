-------------------------------- MODULE Utf8 --------------------------------
(***************************************************************************)
(* Bytes, UTF-8 units and the skipping partition.                          *)
(*                                                                         *)
(* A text is a sequence of bytes (0..255).  Positions and offsets are      *)
(* 0-based byte offsets as in the library's interface: byte p of text s is *)
(* s[p+1].  A window is a pair of offsets lo <= hi; only bytes lo..hi-1    *)
(* are visible in it.  32-bit unsigned values are written as signed ones,  *)
(* so -1 is both "invalid character" and "no position".                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

INVALID == -1
NPOS == -1
UMAX == 1114111

IsCont(b) == b >= 128 /\ b < 192

\* The number of bytes in the unit a byte announces; 0 when it cannot start one.
LeadLen(b) == IF b < 128 THEN 1
              ELSE IF b < 192 THEN 0
              ELSE IF b < 224 THEN 2
              ELSE IF b < 240 THEN 3
              ELSE IF b < 248 THEN 4
              ELSE 0

Slice(s, a, b) == SubSeq(s, a + 1, b)     \* bytes a..b-1

\* Concatenation of many sequences, pairwise to stay cheap on long lists.
RECURSIVE Cat2(_, _, _)
Cat2(q, i, j) == IF i > j THEN <<>>
                 ELSE IF i = j THEN q[i]
                 ELSE LET m == (i + j) \div 2 IN Cat2(q, i, m) \o Cat2(q, m + 1, j)
Concat(q) == Cat2(q, 1, Len(q))

(***************************************************************************)
(* Well-formed units.                                                      *)
(***************************************************************************)
\* Length of the well-formed unit starting at p and ending no later than hi, or 0.
UnitLen(s, p, hi) ==
    IF p < 0 \/ p >= hi THEN 0
    ELSE LET n == LeadLen(s[p + 1])
         IN IF n = 1 THEN 1
            ELSE IF n = 0 \/ p + n > hi THEN 0
            ELSE IF \A k \in 2..n : IsCont(s[p + k]) THEN n ELSE 0

UnitVal(s, p, n) ==
    IF n = 1 THEN s[p + 1]
    ELSE IF n = 2 THEN (s[p + 1] % 32) * 64 + (s[p + 2] % 64)
    ELSE IF n = 3 THEN (s[p + 1] % 16) * 4096 + (s[p + 2] % 64) * 64 + (s[p + 3] % 64)
    ELSE (s[p + 1] % 8) * 262144 + (s[p + 2] % 64) * 4096 + (s[p + 3] % 64) * 64 + (s[p + 4] % 64)

Offsets(lo, hi) == [i \in 1..(hi - lo) |-> lo + i - 1]

\* A unit is <<start, end, code point>>.  All well-formed units inside a window.
UnitsIn(s, lo, hi) ==
    LET at == SelectSeq(Offsets(lo, hi), LAMBDA p : UnitLen(s, p, hi) > 0)
    IN TLCEval([k \in 1..Len(at) |->
            LET n == UnitLen(s, at[k], hi) IN <<at[k], at[k] + n, UnitVal(s, at[k], n)>>])

(***************************************************************************)
(* Reading forward from lo: the units met before the window's end or the   *)
(* first malformed byte.  u: the units; at: where reading stopped; bad:    *)
(* TRUE when it stopped at a malformed byte.                               *)
(***************************************************************************)
Fwd(s, lo, hi) ==
    LET un == UnitsIn(s, lo, hi)
        g == FoldLeft(LAMBDA acc, x : IF acc[3] /\ x[1] = acc[2]
                                      THEN <<acc[1] + 1, x[2], TRUE>>
                                      ELSE <<acc[1], acc[2], FALSE>>,
                      <<0, lo, TRUE>>, un)
    IN [u |-> SubSeq(un, 1, g[1]), at |-> g[2], bad |-> g[2] # hi]

(***************************************************************************)
(* Reading backward from hi: units in the order they are met.              *)
(***************************************************************************)
Bwd(s, lo, hi) ==
    LET un == Reverse(UnitsIn(s, lo, hi))
        g == FoldLeft(LAMBDA acc, x : IF acc[3] /\ x[2] = acc[2]
                                      THEN <<acc[1] + 1, x[1], TRUE>>
                                      ELSE <<acc[1], acc[2], FALSE>>,
                      <<0, hi, TRUE>>, un)
    IN [u |-> SubSeq(un, 1, g[1]), at |-> g[2], bad |-> g[2] # lo]

\* The unit starting (ending) exactly at a position, or <<>>.
UnitAt(s, p, hi) == LET n == UnitLen(s, p, hi)
                    IN IF n = 0 THEN <<>> ELSE <<p, p + n, UnitVal(s, p, n)>>
UnitBefore(s, lo, p) ==
    LET ns == {n \in 1..4 : p - n >= lo /\ UnitLen(s, p - n, p) = n}
    IN IF ns = {} THEN <<>>
       ELSE LET n == CHOOSE n \in ns : TRUE IN <<p - n, p, UnitVal(s, p - n, n)>>

Valid(s) == ~Fwd(s, 0, Len(s)).bad

Points(f) == [k \in 1..Len(f.u) |-> f.u[k][3]]

(***************************************************************************)
(* The shortest encoding; nothing for values outside Unicode.              *)
(***************************************************************************)
Encodable(c) == c >= 0 /\ c <= UMAX
Enc(c) == IF ~Encodable(c) THEN <<>>
          ELSE IF c < 128 THEN <<c>>
          ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
          ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
          ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
EncAll(q) == Concat([k \in 1..Len(q) |-> Enc(q[k])])

(***************************************************************************)
(* Skipping: one byte sequence is an ASCII byte, a lead byte with at most  *)
(* as many following continuation bytes as it announces, or a stray run.   *)
(***************************************************************************)
ContRun(s, p, hi) == LET k == SelectInSeq(Slice(s, p, hi), LAMBDA b : ~IsCont(b))
                     IN IF k = 0 THEN hi - p ELSE k - 1

SkipLen(s, p, hi) ==
    LET n == LeadLen(s[p + 1])
    IN IF n = 1 THEN 1
       ELSE IF n = 0 THEN 1 + ContRun(s, p + 1, hi)
       ELSE 1 + ContRun(s, p + 1, IF p + n < hi THEN p + n ELSE hi)

\* Whether a sequence of the partition of a window starting at lo starts at p.
\* A local question: a continuation byte starts one only directly after the
\* last byte some sequence can hold.
IsSeqStart(s, lo, p) ==
    \/ p = lo
    \/ ~IsCont(s[p + 1])
    \/ \E d \in 1..4 : /\ p - d >= lo
                       /\ LeadLen(s[p - d + 1]) = d
                       /\ \A k \in 1..(d - 1) : IsCont(s[p - k + 1])

\* Start offsets of the sequences of a window, ascending.
Partition(s, lo, hi) == SelectSeq(Offsets(lo, hi), LAMBDA p : IsSeqStart(s, lo, p))

SkipNext(s, p, hi) == p + SkipLen(s, p, hi)
\* The last sequence start before q.
LastSeqStart(s, lo, p) ==
    lo + SelectLastInSeq(Offsets(lo, p + 1), LAMBDA i : IsSeqStart(s, lo, i)) - 1
SkipPrev(s, lo, q) == LastSeqStart(s, lo, q - 1)

=============================================================================
