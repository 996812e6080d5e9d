------------------------------- MODULE Escape -------------------------------
(***************************************************************************)
(* JSON escaping, unescaping, and the incremental unescaping of a view.    *)
(***************************************************************************)
EXTENDS Convert

BSLASH == 92
QUOTE == 34

(***************************************************************************)
(* JSON escaping.                                                          *)
(***************************************************************************)
Escapable(b) == b < 32 \/ b = QUOTE \/ b = BSLASH
HexChar(n) == IF n < 10 THEN 48 + n ELSE 55 + n
JsonEscape(b) ==
    CASE b = 8  -> <<BSLASH, 98>>
      [] b = 12 -> <<BSLASH, 102>>
      [] b = 10 -> <<BSLASH, 110>>
      [] b = 13 -> <<BSLASH, 114>>
      [] b = 9  -> <<BSLASH, 116>>
      [] b = QUOTE  -> <<BSLASH, QUOTE>>
      [] b = BSLASH -> <<BSLASH, BSLASH>>
      [] OTHER -> <<BSLASH, 117, 48, 48, HexChar(b \div 16), HexChar(b % 16)>>
EscapeJson(s) == Concat([k \in 1..Len(s) |-> IF Escapable(s[k]) THEN JsonEscape(s[k]) ELSE <<s[k]>>])
EscapeJsonR(s) == {<<"ok", EscapeJson(s)>>}
FindEscapableR(s, off) ==
    LET k == SelectInSeq(Slice(s, off, Len(s)), Escapable)
    IN IF k = 0 THEN EmptyRanges(s) ELSE {<<"ok", off + k - 1, 1>>}
HasEscapableR(s) == {<<"ok", Bool(\E k \in 1..Len(s) : Escapable(s[k]))>>}

(***************************************************************************)
(* Digits.                                                                 *)
(***************************************************************************)
HexDigit(b) == IF b >= 48 /\ b <= 57 THEN b - 48
               ELSE IF b >= 65 /\ b <= 70 THEN b - 55
               ELSE IF b >= 97 /\ b <= 102 THEN b - 87 ELSE -1
IsHexByte(b) == HexDigit(b) >= 0
IsOctByte(b) == b >= 48 /\ b <= 55
\* The longest run of digits from p, at most max of them, within the window.
Run(s, p, hi, max, T(_)) ==
    LET e == IF hi - p < max THEN hi ELSE p + max
        k == SelectInSeq(Slice(s, p, e), LAMBDA b : ~T(b))
    IN IF k = 0 THEN e - p ELSE k - 1
Digits(s, p, n) == [i \in 1..n |-> HexDigit(s[p + i])]
Significant(q) == LET k == SelectInSeq(q, LAMBDA d : d # 0)
                  IN IF k = 0 THEN <<>> ELSE SubSeq(q, k, Len(q))
\* As a 32-bit value, written signed.  Not for more than eight significant digits.
HexValue(q) ==
    LET d == Significant(q)
        e == IF Len(d) = 8 /\ d[1] >= 8 THEN [d EXCEPT ![1] = @ - 16] ELSE d
    IN FoldLeft(LAMBDA acc, x : acc * 16 + x, 0, e)
OctValue(q) == FoldLeft(LAMBDA acc, x : acc * 8 + x, 0, q)

IsHigh(c) == c >= 55296 /\ c <= 56319
IsLow(c) == c >= 56320 /\ c <= 57343
Combine(h, l) == 65536 + (h - 55296) * 1024 + (l - 56320)

Letter(b) == CASE b = 97 -> 7 [] b = 98 -> 8 [] b = 102 -> 12 [] b = 110 -> 10
               [] b = 114 -> 13 [] b = 116 -> 9 [] b = 118 -> 11 [] OTHER -> b

(***************************************************************************)
(* The escape sequence starting at the backslash at p: <<end, value>> or   *)
(* <<>> when it is not one.  Surrogate pairs are put together elsewhere.   *)
(***************************************************************************)
EscapeAt(s, p, hi) ==
    IF p + 1 >= hi THEN <<>>
    ELSE LET b == s[p + 2]
         IN IF b \in {88, 120}
            THEN LET n == Run(s, p + 2, hi, hi, IsHexByte)
                 IN IF n < 2 \/ Len(Significant(Digits(s, p + 2, n))) > 8
                    THEN <<>> ELSE <<p + 2 + n, HexValue(Digits(s, p + 2, n))>>
            ELSE IF b \in {85, 117}
            THEN LET m == IF b = 85 THEN 8 ELSE 4
                     n == Run(s, p + 2, hi, m, IsHexByte)
                 IN IF n < m THEN <<>> ELSE <<p + 2 + n, HexValue(Digits(s, p + 2, n))>>
            ELSE IF IsOctByte(b)
            THEN LET n == Run(s, p + 1, hi, 3, IsOctByte)
                 IN <<p + 1 + n, OctValue(Digits(s, p + 1, n))>>
            ELSE IF b < 128 THEN <<p + 2, Letter(b)>> ELSE <<>>

\* The extent alone: a value beyond 32 bits is no obstacle to finding a sequence.
EscapeEnd(s, p, hi) ==
    IF p + 1 < hi /\ s[p + 2] \in {88, 120}
    THEN LET n == Run(s, p + 2, hi, hi, IsHexByte) IN IF n < 2 THEN -1 ELSE p + 2 + n
    ELSE LET e == EscapeAt(s, p, hi) IN IF e = <<>> THEN -1 ELSE e[1]

IsUnicodeEscape(s, p, hi) == p + 1 < hi /\ s[p + 1] = BSLASH /\ s[p + 2] = 117

\* With surrogate pairs: a u sequence with a high surrogate directly followed by
\* one with a low surrogate.
PairedAt(s, p, hi) ==
    LET e == EscapeAt(s, p, hi)
    IN IF e # <<>> /\ s[p + 2] = 117 /\ IsHigh(e[2]) /\ IsUnicodeEscape(s, e[1], hi)
       THEN LET g == EscapeAt(s, e[1], hi)
            IN IF g = <<>> THEN <<>>
               ELSE IF IsLow(g[2]) THEN <<g[1], Combine(e[2], g[2])>> ELSE e
       ELSE e

NextBackslash(s, p) == LET k == SelectInSeq(Slice(s, p, Len(s)), LAMBDA b : b = BSLASH)
                       IN IF k = 0 THEN -1 ELSE p + k - 1

\* The escape sequences of a text, as <<start, end, value>>: each search starts
\* where the last one ended.  ok is FALSE if the last one found is malformed.
Sequences(s) ==
    LET q == FoldLeft(LAMBDA acc, b :
                 IF ~acc[1] \/ b < acc[2] THEN acc
                 ELSE LET e == PairedAt(s, b, Len(s))
                      IN IF e = <<>> THEN <<FALSE, b, acc[3]>>
                         ELSE <<TRUE, e[1], Append(acc[3], <<b, e[1], e[2]>>)>>,
                 <<TRUE, 0, <<>>>>, SelectSeq(Offsets(0, Len(s)), LAMBDA p : s[p + 1] = BSLASH))
    IN [ok |-> q[1], q |-> q[3]]
Unescape(s, q) ==
    Concat([i \in 1..(2 * Len(q) + 1) |->
        LET k == i \div 2
        IN IF i % 2 = 0 THEN Enc(q[k][3])
           ELSE Slice(s, IF k = 0 THEN 0 ELSE q[k][2], IF k < Len(q) THEN q[k + 1][1] ELSE Len(s))])
UnescapeR(s) == LET q == Sequences(s) IN {IF q.ok THEN <<"ok", Unescape(s, q.q)>> ELSE THROW}

FindEscapedR(s, off) ==
    LET b == NextBackslash(s, off)
    IN IF b = -1 THEN EmptyRanges(s)
       ELSE LET e == EscapeEnd(s, b, Len(s)) IN {IF e = -1 THEN THROW ELSE <<"ok", b, e - b>>}
HasEscapedR(s) ==
    LET b == NextBackslash(s, 0)
    IN {IF b = -1 THEN <<"ok", 0>> ELSE IF EscapeEnd(s, b, Len(s)) = -1 THEN THROW ELSE <<"ok", 1>>}

(***************************************************************************)
(* The next character of the view lo..hi-1: <<kind, lo', value>> where     *)
(* kind is 0 for none, 1 for a plain and 2 for an escaped character, and   *)
(* -1 for an exception.                                                    *)
(***************************************************************************)
RECURSIVE PastContinuations(_, _, _)
PastContinuations(s, p, hi) ==
    IF p + 1 < hi /\ s[p + 1] = BSLASH /\ s[p + 2] = LF THEN PastContinuations(s, p + 2, hi) ELSE p

Unescaped(s, lo, hi) ==
    LET p == PastContinuations(s, lo, hi)
        none == <<-1, lo, INVALID>>
    IN IF p = hi THEN <<0, hi, INVALID>>
       ELSE IF s[p + 1] # BSLASH
       THEN LET u == UnitAt(s, p, hi) IN IF u = <<>> THEN none ELSE <<1, u[2], u[3]>>
       ELSE IF p + 1 = hi THEN none
       ELSE LET b == s[p + 2]
            IN IF b \in {88, 120}
               THEN LET n == Run(s, p + 2, hi, 8, IsHexByte)
                    IN IF n = 0 THEN none ELSE <<2, p + 2 + n, HexValue(Digits(s, p + 2, n))>>
               ELSE IF b = 117
               THEN LET e == EscapeAt(s, p, hi)
                    IN IF e = <<>> THEN none
                       ELSE IF IsHigh(e[2]) /\ e[1] + 6 <= hi /\ IsUnicodeEscape(s, e[1], hi)
                       THEN LET g == EscapeAt(s, e[1], hi)
                            IN IF g = <<>> THEN none
                               ELSE IF IsLow(g[2]) THEN <<2, g[1], Combine(e[2], g[2])>>
                               ELSE <<2, e[1], e[2]>>
                       ELSE <<2, e[1], e[2]>>
               ELSE IF b = 85 \/ IsOctByte(b)
               THEN LET e == EscapeAt(s, p, hi) IN IF e = <<>> THEN none ELSE <<2, e[1], e[2]>>
               ELSE IF b < 128 THEN <<2, p + 2, Letter(b)>>
               ELSE LET u == UnitAt(s, p + 1, hi) IN IF u = <<>> THEN none ELSE <<2, u[2], u[3]>>

=============================================================================
