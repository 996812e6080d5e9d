-------------------------------- MODULE Chars -------------------------------
(***************************************************************************)
(* Characters (code points with their combining marks), positions counted  *)
(* in characters or in skipping-partition sequences, substrings, insertion *)
(* and replacement by index, and reversal.                                 *)
(*                                                                         *)
(* HUGE and LEAST stand for the largest and smallest signed positions that  *)
(* the interface can express; the driver gives numbers beyond them values   *)
(* that are just as far outside any text (2^31, 2^32 ...).                  *)
(***************************************************************************)
EXTENDS Search

HUGE == 1000000000
LEAST == -1000000001
Max2(a, b) == IF a > b THEN a ELSE b

(***************************************************************************)
(* Going forward.  Heads(f): indexes into f.u at which characters start,   *)
(* the reading having started at a character boundary.                     *)
(***************************************************************************)
Heads(f) == SelectSeq([i \in 1..Len(f.u) |-> i], LAMBDA i : i = 1 \/ ~IsMark(f.u[i][3]))

\* The character starting at off (an offset inside the text or at its end).
NextChar(s, off) ==
    LET f == Fwd(s, off, Len(s))
    IN IF f.u = <<>> THEN IF f.bad THEN THROW ELSE <<"ok", off, 0>>
       ELSE LET h == Heads(f)
            IN IF Len(h) > 1 THEN <<"ok", off, f.u[h[2]][1] - off>>
               ELSE IF f.bad THEN THROW ELSE <<"ok", off, f.at - off>>

\* The character ending at off.
PrevChar(s, off) ==
    LET f == Bwd(s, 0, off)
        k == SelectInSeq(f.u, LAMBDA x : ~IsMark(x[3]))
    IN IF k # 0 THEN <<"ok", f.u[k][1], off - f.u[k][1]>>
       ELSE IF f.bad THEN THROW ELSE <<"ok", 0, off>>

CountChars(s) == LET f == Fwd(s, 0, Len(s))
                 IN IF f.bad THEN THROW ELSE <<"ok", Len(Heads(f))>>

\* Where character number n of a window starts, or from the end where the
\* n-th last starts; the offset after the last character for n = their number.
\* <<"ok", offset>>, <<"ok", NPOS>> or THROW when the way there is malformed.
CharPos(s, lo, hi, n) ==
    IF n = 0 THEN <<"ok", lo>>
    ELSE IF n > 0
    THEN LET f == Fwd(s, lo, hi)
             h == Heads(f)
         IN IF Len(h) > n THEN <<"ok", f.u[h[n + 1]][1]>>
            ELSE IF f.bad THEN THROW
            ELSE IF Len(h) = n THEN <<"ok", hi>> ELSE <<"ok", NPOS>>
    ELSE LET f == Bwd(s, lo, hi)
             b == SelectSeq(f.u, LAMBDA x : ~IsMark(x[3]))
         IN IF Len(b) >= -n THEN <<"ok", b[-n][1]>>
            ELSE IF f.bad THEN THROW
            ELSE IF f.u # <<>> /\ IsMark(f.u[Len(f.u)][3]) /\ Len(b) + 1 = -n THEN <<"ok", lo>>
            ELSE <<"ok", NPOS>>
CharPosR(s, n) == {CharPos(s, 0, Len(s), n)}

CharRange(s, n) ==
    IF n >= 0
    THEN LET p == CharPos(s, 0, Len(s), n)
         IN IF p = THROW THEN THROW
            ELSE IF p[2] = NPOS THEN <<"ok", Len(s), 0>> ELSE NextChar(s, p[2])
    ELSE LET p == IF n = -1 THEN <<"ok", Len(s)>> ELSE CharPos(s, 0, Len(s), n + 1)
         IN IF p = THROW THEN THROW
            ELSE IF p[2] = NPOS THEN <<"ok", 0, 0>> ELSE PrevChar(s, p[2])

(***************************************************************************)
(* Positions in the skipping partition.                                    *)
(***************************************************************************)
CountCps(s) == Len(Partition(s, 0, Len(s)))
CpPos(s, n) ==
    LET q == Partition(s, 0, Len(s))
    IN IF n >= 0 THEN IF n < Len(q) THEN q[n + 1]
                      ELSE IF n = Len(q) THEN Len(s) ELSE NPOS
       ELSE IF -n <= Len(q) THEN q[Len(q) + 1 + n] ELSE NPOS

\* The code point at a position: <<"ok", start, length, value>>.
CpAt(s, n) ==
    LET q == Partition(s, 0, Len(s))
    IN IF n >= 0
       THEN IF n >= Len(q) THEN <<"ok", Len(s), 0, INVALID>>
            ELSE LET u == UnitAt(s, q[n + 1], Len(s))
                 IN IF u = <<>> THEN THROW ELSE <<"ok", u[1], u[2] - u[1], u[3]>>
       ELSE IF -n > Len(q) THEN <<"ok", 0, 0, INVALID>>
            ELSE LET e == IF n = -1 THEN Len(s) ELSE q[Len(q) + 2 + n]
                     u == UnitBefore(s, 0, e)
                 IN IF u = <<>> THEN THROW ELSE <<"ok", u[1], u[2] - u[1], u[3]>>

(***************************************************************************)
(* The slice two indexes address: positions outside the text are capped,   *)
(* and the slice is empty, at its start, when the end is not after it.     *)
(***************************************************************************)
Capped(s, p, n) == IF p # NPOS THEN p ELSE IF n > 0 THEN Len(s) ELSE 0
CpSlice(s, a, b) ==
    LET x == Capped(s, CpPos(s, a), a)
        y == Capped(s, CpPos(s, b), b)
    IN <<x, Max2(x, y)>>
\* For characters the scans go from one index towards the other; on malformed
\* text they may or may not run into the malformed bytes.
CharSliceR(s, a, b) ==
    LET bad == ~Valid(s)
        c == IF (a >= 0) = (b >= 0) /\ b < a THEN a ELSE b
        x == CharPos(s, 0, Len(s), a)
        y == CharPos(s, 0, Len(s), c)
        throw == IF bad THEN {<<>>} ELSE {}
    IN IF x = THROW \/ y = THROW THEN throw
       ELSE LET p == Capped(s, x[2], a)
                q == Capped(s, y[2], c)
            IN {<<p, Max2(p, q)>>} \cup throw

CpSubR(s, a, b) == LET v == CpSlice(s, a, b) IN {<<"ok", View(v[1], v[2])>>}
CharSubR(s, a, b) == {IF v = <<>> THEN THROW ELSE <<"ok", View(v[1], v[2])>> : v \in CharSliceR(s, a, b)}

Splice(s, a, b, r) == SubSeq(s, 1, a) \o r \o SubSeq(s, b + 1, Len(s))
RepCpsR(s, a, b, r) == LET v == CpSlice(s, a, b) IN {<<"ok", Splice(s, v[1], v[2], r)>>}
RepCharsR(s, a, b, r) ==
    {IF v = <<>> THEN THROW ELSE <<"ok", Splice(s, v[1], v[2], r)>> : v \in CharSliceR(s, a, b)}

(***************************************************************************)
(* Insertion.                                                              *)
(***************************************************************************)
InsBytes(s, p, x) == IF x = <<>> THEN <<"ok", s>>
                     ELSE IF p = NPOS THEN THROW ELSE <<"ok", Splice(s, p, p, x)>>
InsPoint(s, p, c) == IF p = NPOS \/ ~Encodable(c) THEN THROW ELSE <<"ok", Splice(s, p, p, Enc(c))>>
InsCpsR(s, n, x) == {InsBytes(s, CpPos(s, n), x)}
InsCpR(s, n, c) == {InsPoint(s, CpPos(s, n), c)}
\* On malformed text an exception may come before the rest is considered.
MayThrow(s) == IF Valid(s) THEN {} ELSE {THROW}
InsCharsR(s, n, x) ==
    LET p == CharPos(s, 0, Len(s), n)
    IN MayThrow(s) \cup (IF x = <<>> THEN {<<"ok", s>>}
                         ELSE IF p = THROW THEN {} ELSE {InsBytes(s, p[2], x)})
InsCharR(s, n, c) ==
    LET p == CharPos(s, 0, Len(s), n)
    IN MayThrow(s) \cup (IF p = THROW THEN {} ELSE {InsPoint(s, p[2], c)})

(***************************************************************************)
(* Reversal: the characters in opposite order.                             *)
(***************************************************************************)
CharsOf(s) == LET f == Fwd(s, 0, Len(s))
                  h == Heads(f)
              IN [i \in 1..Len(h) |->
                    SubSeq(s, f.u[h[i]][1] + 1, IF i < Len(h) THEN f.u[h[i + 1]][1] ELSE Len(s))]
ReverseText(s) == Concat(Reverse(CharsOf(s)))
ReverseR(s) == {IF Valid(s) THEN <<"ok", ReverseText(s)>> ELSE THROW}

=============================================================================
