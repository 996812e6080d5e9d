------------------------------- MODULE Search -------------------------------
(***************************************************************************)
(* Searching: substrings, code points, newlines, and the token finders     *)
(* that splitting and the token iterator are built on.                     *)
(*                                                                         *)
(* Operators named ...R give the set of replies a call may make.  A reply  *)
(* is <<"ok", results...>> or <<"throw", ...>>; a byte range is written as *)
(* its start and length.                                                   *)
(***************************************************************************)
EXTENDS Unicode

THROW == <<"throw">>
Bool(b) == IF b THEN 1 ELSE 0
\* A view of part of the text; where an empty one points does not matter.
View(a, b) == IF b <= a THEN <<0, 0>> ELSE <<a, b - a>>

(***************************************************************************)
(* Substrings.                                                             *)
(***************************************************************************)
OccursAt(s, pat, p) == \A k \in 1..Len(pat) : s[p + k] = pat[k]
\* Ascending start offsets of all occurrences inside a window; none of an empty pattern.
Occurrences(s, pat, lo, hi) ==
    IF pat = <<>> \/ hi - lo < Len(pat) THEN <<>>
    ELSE SelectSeq(Offsets(lo, hi - Len(pat) + 1), LAMBDA p : OccursAt(s, pat, p))

EmptyRanges(s) == {<<"ok", i, 0>> : i \in -1..Len(s)}

FindFirstR(s, pat, off) ==
    IF pat = <<>> THEN EmptyRanges(s)
    ELSE LET occ == Occurrences(s, pat, off, Len(s))
         IN {IF occ = <<>> THEN <<"ok", Len(s), 0>> ELSE <<"ok", occ[1], Len(pat)>>}

FindLastR(s, pat, off) ==
    IF pat = <<>> THEN EmptyRanges(s)
    ELSE LET occ == Occurrences(s, pat, 0, IF off < Len(s) THEN off ELSE Len(s))
         IN {IF occ = <<>> THEN <<"ok", 0, 0>> ELSE <<"ok", occ[Len(occ)], Len(pat)>>}

HasPrefix(s, pat) == Len(pat) <= Len(s) /\ SubSeq(s, 1, Len(pat)) = pat
HasSuffix(s, pat) == Len(pat) <= Len(s) /\ SubSeq(s, Len(s) - Len(pat) + 1, Len(s)) = pat
StartsWithR(s, pat) == {<<"ok", Bool(HasPrefix(s, pat))>>}
EndsWithR(s, pat) == {<<"ok", Bool(HasSuffix(s, pat))>>}

(***************************************************************************)
(* Collections of code points:                                             *)
(*   <<"in", list>>  <<"ci", list>>  the listed ones (ignoring case)        *)
(*   <<"set", neg, <<a1, b1, a2, b2, ...>>>>  <<"ciset", ...>> ranges       *)
(*   <<"ge", <<k>>>>  <<"odd", <<>>>>  predicates                           *)
(***************************************************************************)
InList(q, c) == \E i \in 1..Len(q) : q[i] = c
\* Values from 2^31 on are negative numbers here.
LeU(a, b) == IF (a < 0) = (b < 0) THEN a <= b ELSE b < 0
InRanges(q, c) == \E i \in 1..(Len(q) \div 2) : LeU(q[2 * i - 1], c) /\ LeU(c, q[2 * i])
Member(m, c) ==
    CASE m[1] = "in"    -> InList(m[2], c)
      [] m[1] = "ci"    -> \E x \in SameUpper(c) : InList(m[2], x)
      [] m[1] = "set"   -> InRanges(m[3], c) # (m[2] = 1)
      [] m[1] = "ciset" -> (\E x \in SameUpper(c) : InRanges(m[3], x)) # (m[2] = 1)
      [] m[1] = "ge"    -> c >= m[2][1]
      [] m[1] = "odd"   -> (c % 2) = 1
      [] m[1] = "space" -> c \in {32, 9, 10, 13}

NOWHERE == <<"ok", -1, 0, INVALID>>
\* Replies of a search that met the units f.u, then stopped.
Nearest(f, m) ==
    LET k == SelectInSeq(f.u, LAMBDA x : Member(m, x[3]))
    IN IF k # 0 THEN <<"ok", f.u[k][1], f.u[k][2] - f.u[k][1], f.u[k][3]>>
       ELSE IF f.bad THEN THROW ELSE NOWHERE
Until(s, off) == IF off < Len(s) THEN off ELSE Len(s)
FindFirstOfR(s, m, off) == {Nearest(Fwd(s, off, Len(s)), m)}
FindLastOfR(s, m, off) == {Nearest(Bwd(s, 0, Until(s, off)), m)}
ContainsR(s, c) ==
    LET r == Nearest(Fwd(s, 0, Len(s)), <<"in", <<c>>>>)
    IN {IF r = THROW THEN THROW ELSE <<"ok", Bool(r # NOWHERE)>>}

(***************************************************************************)
(* Newlines.  A newline is <<start, end>>; CR directly followed by LF      *)
(* inside the searched range is one newline.                               *)
(***************************************************************************)
\* The unit after (before) a CR (LF) may be examined to see if it completes a
\* pair, so a malformed byte there may be reported: both replies are allowed.
FirstNewline(s, off) ==
    LET f == Fwd(s, off, Len(s))
        k == SelectInSeq(f.u, LAMBDA x : IsNewline(x[3]))
    IN IF k = 0 THEN IF f.bad THEN {THROW} ELSE {<<"ok", -1, 0>>}
       ELSE IF f.u[k][3] = CR /\ k < Len(f.u) /\ f.u[k + 1][3] = LF
            THEN {<<"ok", f.u[k][1], f.u[k + 1][2] - f.u[k][1]>>}
       ELSE {<<"ok", f.u[k][1], f.u[k][2] - f.u[k][1]>>}
            \cup IF f.u[k][3] = CR /\ k = Len(f.u) /\ f.bad THEN {THROW} ELSE {}
LastNewline(s, off) ==
    LET f == Bwd(s, 0, Until(s, off))
        k == SelectInSeq(f.u, LAMBDA x : IsNewline(x[3]))
    IN IF k = 0 THEN IF f.bad THEN {THROW} ELSE {<<"ok", -1, 0>>}
       ELSE IF f.u[k][3] = LF /\ k < Len(f.u) /\ f.u[k + 1][3] = CR
            THEN {<<"ok", f.u[k + 1][1], f.u[k][2] - f.u[k + 1][1]>>}
       ELSE {<<"ok", f.u[k][1], f.u[k][2] - f.u[k][1]>>}
            \cup IF f.u[k][3] = LF /\ k = Len(f.u) /\ f.bad THEN {THROW} ELSE {}

(***************************************************************************)
(* Ignoring case: texts are compared by the upper case forms of their code *)
(* points.                                                                 *)
(***************************************************************************)
SameCp(a, b) == a = b \/ ToUpper(a) = ToUpper(b)
\* Number of leading units of two unit sequences that are equal ignoring case.
CommonPrefix(u, v) ==
    LET n == IF Len(u) < Len(v) THEN Len(u) ELSE Len(v)
        d == SelectInSeq([i \in 1..n |-> i], LAMBDA i : ~SameCp(u[i][3], v[i][3]))
    IN IF d = 0 THEN n ELSE d - 1

\* Indexes into u at which v occurs ignoring case, ascending.
CiOccurrences(u, v) ==
    IF v = <<>> \/ Len(v) > Len(u) THEN <<>>
    ELSE LET w == TLCEval([i \in 1..Len(v) |-> ToUpper(v[i][3])])
         IN SelectSeq([i \in 1..(Len(u) - Len(v) + 1) |-> i],
              LAMBDA i : \A j \in 1..Len(v) : ToUpper(u[i + j - 1][3]) = w[j])

\* A full match directly followed by a malformed byte may or may not raise an
\* exception, as may a search for a malformed pattern.
CiNowhere == <<"ok", -1, 0>>
CiFirst(s, pat, lo) ==
    LET g == Fwd(pat, 0, Len(pat))
        f == Fwd(s, lo, Len(s))
        i == CiOccurrences(f.u, g.u)
    IN IF g.bad THEN {THROW, CiNowhere}
       ELSE IF pat = <<>> THEN {CiNowhere}
       ELSE IF i = <<>> THEN {IF f.bad THEN THROW ELSE CiNowhere}
       ELSE LET b == f.u[i[1] + Len(g.u) - 1][2]
            IN {<<"ok", f.u[i[1]][1], b - f.u[i[1]][1]>>}
               \cup IF f.bad /\ b = f.at THEN {THROW} ELSE {}
CiLast(s, pat, off) ==
    LET g == Bwd(pat, 0, Len(pat))
        f == Bwd(s, 0, Until(s, off))
        i == CiOccurrences(f.u, g.u)
    IN IF g.bad THEN {THROW, CiNowhere}
       ELSE IF pat = <<>> THEN {CiNowhere}
       ELSE IF i = <<>> THEN {IF f.bad THEN THROW ELSE CiNowhere}
       ELSE LET a == f.u[i[1] + Len(g.u) - 1][1]
            IN {<<"ok", a, f.u[i[1]][2] - a>>}
               \cup IF f.bad /\ a = f.at THEN {THROW} ELSE {}

\* Prefix or suffix test on what was read from the text (f) and pattern (g).
CiAffix(f, g) ==
    LET k == CommonPrefix(f.u, g.u)
        full == k = Len(g.u) /\ ~g.bad
    IN IF full THEN {<<"ok", 1>>} \cup IF f.bad /\ k = Len(f.u) THEN {THROW} ELSE {}
       ELSE IF f.bad /\ k = Len(f.u)
            THEN {THROW} \cup IF g.bad /\ k = Len(g.u) THEN {<<"ok", 0>>} ELSE {}
       ELSE {<<"ok", 0>>} \cup IF g.bad THEN {THROW} ELSE {}
CiStartsWithR(s, pat) == CiAffix(Fwd(s, 0, Len(s)), Fwd(pat, 0, Len(pat)))
CiEndsWithR(s, pat) == CiAffix(Bwd(s, 0, Len(s)), Bwd(pat, 0, Len(pat)))

(***************************************************************************)
(* The order of texts ignoring case: lexicographic by upper case forms.    *)
(* Sign is -1, 0 or 1; 2 stands for an exception.                          *)
(***************************************************************************)
Sgn(n) == IF n < 0 THEN -1 ELSE IF n > 0 THEN 1 ELSE 0
CiOrder(s, t) ==
    LET f == Fwd(s, 0, Len(s))
        g == Fwd(t, 0, Len(t))
        k == CommonPrefix(f.u, g.u)
        fend == k = Len(f.u)
        gend == k = Len(g.u)
    IN IF ~fend /\ ~gend THEN {Sgn(ToUpper(f.u[k + 1][3]) - ToUpper(g.u[k + 1][3]))}
       ELSE IF ~fend THEN IF g.bad THEN {2} ELSE {1}
       ELSE IF ~gend THEN IF f.bad THEN {2} ELSE {-1}
       ELSE IF f.bad /\ g.bad THEN {2}
       \* One text has ended; the other is malformed at the point reached.
       ELSE IF f.bad THEN {2, 1}
       ELSE IF g.bad THEN {2, -1}
       ELSE {0}
CiCompareR(s, t) == {IF x = 2 THEN THROW ELSE <<"ok", x>> : x \in CiOrder(s, t)}
CiEqualR(s, t) == {IF x = 2 THEN THROW ELSE <<"ok", Bool(x = 0)>> : x \in CiOrder(s, t)}
CiLessR(s, t) == {IF x = 2 THEN THROW ELSE <<"ok", Bool(x = -1)>> : x \in CiOrder(s, t)}
\* compare, equal and less of two code points, then the function objects' answers.
CiCpR(a, b) == LET x == Sgn(ToUpper(a) - ToUpper(b))
               IN {<<"ok", x, Bool(x = 0), Bool(x = -1), x, Bool(x = 0), Bool(x = -1)>>}

(***************************************************************************)
(* Token finders.  FindToken gives the possible answers to "where is the   *)
(* first token of the text from lo on": <<"ok", start, length>> with       *)
(* length 0 for none.                                                      *)
(*   <<"str", bytes>>    a substring        <<"of", list>>  one code point  *)
(*   <<"cistr", bytes>>, <<"ciof", list>>   the same ignoring case          *)
(*   <<"nl">>            a newline          <<"run", bytes>> a longest run  *)
(*   <<"at", p, q>>      q bytes at offset p from lo, if there are as many  *)
(***************************************************************************)
RunLen(s, bs, p) == LET k == SelectInSeq(Offsets(p, Len(s)), LAMBDA i : ~InList(bs, s[i + 1]))
                    IN IF k = 0 THEN Len(s) - p ELSE k - 1
FindToken(f, s, lo) ==
    CASE f[1] = "str" ->
            LET occ == Occurrences(s, f[2], lo, Len(s))
            IN {IF occ = <<>> THEN <<"ok", -1, 0>> ELSE <<"ok", occ[1], Len(f[2])>>}
      [] f[1] \in {"of", "ciof"} ->
            LET r == Nearest(Fwd(s, lo, Len(s)), <<IF f[1] = "of" THEN "in" ELSE "ci", f[2]>>)
            IN {IF r = THROW THEN THROW ELSE <<"ok", r[2], r[3]>>}
      [] f[1] = "nl" -> FirstNewline(s, lo)
      [] f[1] = "cistr" -> CiFirst(s, f[2], lo)
      [] f[1] = "run" ->
            LET k == SelectInSeq(Offsets(lo, Len(s)), LAMBDA i : InList(f[2], s[i + 1]))
            IN {IF k = 0 THEN <<"ok", -1, 0>>
                ELSE <<"ok", lo + k - 1, RunLen(s, f[2], lo + k - 1)>>}
      [] f[1] = "at" ->
            {IF lo + f[2] + f[3] <= Len(s) THEN <<"ok", lo + f[2], f[3]>> ELSE <<"ok", -1, 0>>}

=============================================================================
