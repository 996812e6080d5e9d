-------------------------------- MODULE Edit --------------------------------
(***************************************************************************)
(* Repair, replacement of occurrences, splitting, joining and trimming.    *)
(***************************************************************************)
EXTENDS Chars

(***************************************************************************)
(* Repair: in the skipping partition, sequences that are not well-formed   *)
(* units give way to the replacement character.                            *)
(***************************************************************************)
Repair(s, c) ==
    LET q == Partition(s, 0, Len(s))
        end(i) == IF i < Len(q) THEN q[i + 1] ELSE Len(s)
    IN Concat([i \in 1..Len(q) |->
            IF UnitLen(s, q[i], Len(s)) = end(i) - q[i] THEN Slice(s, q[i], end(i)) ELSE Enc(c)])

(***************************************************************************)
(* Non-overlapping occurrences, at most n, chosen from the left (n > 0) or *)
(* from the right (n < 0); each is <<start, end>>, ascending.              *)
(***************************************************************************)
Chosen(occ, n) ==
    IF n >= 0
    THEN FoldLeft(LAMBDA acc, o : IF Len(acc) < n /\ (acc = <<>> \/ acc[Len(acc)][2] <= o[1])
                                  THEN Append(acc, o) ELSE acc, <<>>, occ)
    ELSE FoldRight(LAMBDA o, acc : IF Len(acc) < -n /\ (acc = <<>> \/ o[2] <= acc[1][1])
                                   THEN <<o>> \o acc ELSE acc, occ, <<>>)
Exchange(s, ranges, to) ==
    Concat([i \in 1..(2 * Len(ranges) + 1) |->
        IF i % 2 = 0 THEN to
        ELSE LET k == i \div 2
             IN Slice(s, IF k = 0 THEN 0 ELSE ranges[k][2],
                         IF k < Len(ranges) THEN ranges[k + 1][1] ELSE Len(s))])

Ranges(occ, m) == [i \in 1..Len(occ) |-> <<occ[i], occ[i] + m>>]
Replace(s, from, to, n) ==
    Exchange(s, Chosen(Ranges(Occurrences(s, from, 0, Len(s)), Len(from)), n), to)
ReplaceR(s, from, to, n) == {<<"ok", Replace(s, from, to, n)>>}
ReplaceCpR(s, from, to, n) ==
    {IF Encodable(from) /\ Encodable(to) THEN <<"ok", Replace(s, Enc(from), Enc(to), n)>> ELSE THROW}

\* Ignoring case.  Malformed text or patterns may raise an exception; if they do
\* not, the occurrences are those among the units before the malformed bytes.
CiRanges(s, pat) ==
    LET f == Fwd(s, 0, Len(s))
        g == Fwd(pat, 0, Len(pat))
        occ == CiOccurrences(f.u, g.u)
    IN IF g.bad THEN <<>>
       ELSE [i \in 1..Len(occ) |-> <<f.u[occ[i]][1], f.u[occ[i] + Len(g.u) - 1][2]>>]
CiRangesBack(s, pat) ==
    LET f == Bwd(s, 0, Len(s))
        g == Bwd(pat, 0, Len(pat))
        occ == CiOccurrences(f.u, g.u)
    IN IF g.bad THEN <<>>
       ELSE Reverse([i \in 1..Len(occ) |-> <<f.u[occ[i] + Len(g.u) - 1][1], f.u[occ[i]][2]>>])
CiReplaceR(s, from, to, n) ==
    LET ch == Chosen(IF n >= 0 THEN CiRanges(s, from) ELSE CiRangesBack(s, from), n)
    IN {<<"ok", Exchange(s, ch, to)>>}
       \cup IF Valid(s) /\ Valid(from) THEN {} ELSE {THROW}

(***************************************************************************)
(* Splitting.                                                              *)
(***************************************************************************)
\* All tokens a finder gives when each search starts where the last token
\* ended: t, as <<start, end>>.  bad: the search after the last one raises an
\* exception.  maybe: the search for the last one may also raise one, as it may
\* look at the malformed bytes directly after it.
Spread(m, s, f, spans) == [t |-> spans, bad |-> m /\ f.bad,
    maybe |-> m /\ f.bad /\ spans # <<>> /\ spans[Len(spans)][2] = f.at]
UnitSpans(f, keep(_)) == LET u == SelectSeq(f.u, keep) IN [i \in 1..Len(u) |-> <<u[i][1], u[i][2]>>]
Runs(s, bs) ==
    LET in(p) == p >= 0 /\ p < Len(s) /\ InList(bs, s[p + 1])
        a == SelectSeq(Offsets(0, Len(s)), LAMBDA p : in(p) /\ ~in(p - 1))
        b == SelectSeq(Offsets(1, Len(s) + 1), LAMBDA p : in(p - 1) /\ ~in(p))
    IN [i \in 1..Len(a) |-> <<a[i], b[i]>>]
Tokens(f, s) ==
    LET w == Fwd(s, 0, Len(s))
    IN CASE f[1] = "str" -> Spread(FALSE, s, w, Chosen(Ranges(Occurrences(s, f[2], 0, Len(s)), Len(f[2])), HUGE))
         [] f[1] = "of" -> [Spread(TRUE, s, w, UnitSpans(w, LAMBDA x : InList(f[2], x[3]))) EXCEPT !.maybe = FALSE]
         [] f[1] = "ciof" -> [Spread(TRUE, s, w, UnitSpans(w, LAMBDA x : Member(<<"ci", f[2]>>, x[3]))) EXCEPT !.maybe = FALSE]
         [] f[1] = "nl" ->
              \* CR and the LF after it are one token.
              LET is(k, c) == k \in 1..Len(w.u) /\ w.u[k][3] = c
                  head == SelectSeq([k \in 1..Len(w.u) |-> k],
                            LAMBDA k : IsNewline(w.u[k][3]) /\ ~(is(k, LF) /\ is(k - 1, CR)))
                  q == Spread(TRUE, s, w, [i \in 1..Len(head) |->
                         LET k == head[i]
                         IN <<w.u[k][1], w.u[IF is(k, CR) /\ is(k + 1, LF) THEN k + 1 ELSE k][2]>>])
              IN [q EXCEPT !.maybe = @ /\ is(Len(w.u), CR)]
         [] f[1] = "cistr" ->
              IF f[2] = <<>> \/ ~Valid(f[2]) THEN [t |-> <<>>, bad |-> FALSE, maybe |-> FALSE]
              ELSE Spread(TRUE, s, w, Chosen(CiRanges(s, f[2]), HUGE))
         [] f[1] = "run" -> Spread(FALSE, s, w, Runs(s, f[2]))
         [] f[1] = "at" -> Spread(FALSE, s, w,
              IF f[3] = 0 THEN <<>>
              ELSE [i \in 1..(Len(s) \div (f[2] + f[3])) |->
                      <<i * (f[2] + f[3]) - f[3], i * (f[2] + f[3])>>])

\* Parts are cut off while tokens are found and fewer than max parts (not
\* counting dropped empty ones) are there; the rest is the last part.
SplitR(f, s, max, drop) ==
    LET k == Tokens(f, s)
        part(a, b) == IF drop = 1 /\ a = b THEN <<>> ELSE <<View(a, b)>>
        \* <<parts, start of the rest, number of tokens used>>
        q == FoldLeft(LAMBDA acc, x : IF Len(acc[1]) >= max THEN acc
                                      ELSE <<acc[1] \o part(acc[2], x[1]), x[2], acc[3] + 1>>,
                      <<<<>>, 0, 0>>, k.t)
        more == Len(q[1]) < max           \* the search that finds no more takes place
        used == q[3] = Len(k.t)           \* all tokens were searched for
        out == <<"ok", q[1] \o part(q[2], Len(s))>>
    IN {IF used /\ more /\ k.bad THEN THROW ELSE out}
       \cup IF used /\ k.maybe THEN {THROW} ELSE {}
\* Case-insensitive splitting promises nothing in particular for malformed text.
CiSplitR(f, s, max, drop) ==
    SplitR(f, s, max, drop) \cup IF Valid(s) /\ (f[1] # "cistr" \/ Valid(f[2])) THEN {} ELSE {THROW}

Join(items, delim) ==
    Concat([i \in 1..(IF items = <<>> THEN 0 ELSE 2 * Len(items) - 1) |->
              IF i % 2 = 1 THEN items[(i + 1) \div 2] ELSE delim])

(***************************************************************************)
(* Trimming.  <<-1, -1>> stands for an exception.                          *)
(***************************************************************************)
TrimStart(s, lo, hi, m) ==
    LET f == Fwd(s, lo, hi)
        k == SelectInSeq(f.u, LAMBDA x : ~Member(m, x[3]))
    IN IF k # 0 THEN <<f.u[k][1], hi>> ELSE IF f.bad THEN <<-1, -1>> ELSE <<hi, hi>>
TrimEnd(s, lo, hi, m) ==
    LET f == Bwd(s, lo, hi)
        k == SelectInSeq(f.u, LAMBDA x : ~Member(m, x[3]))
    IN IF k # 0 THEN <<lo, f.u[k][2]>> ELSE IF f.bad THEN <<-1, -1>> ELSE <<lo, lo>>
TrimBoth(s, m) ==
    LET a == TrimStart(s, 0, Len(s), m)
    IN IF a[1] = -1 THEN a ELSE TrimEnd(s, a[1], a[2], m)
ViewR(v) == {IF v[1] = -1 THEN THROW ELSE <<"ok", View(v[1], v[2])>>}
TrimStartR(s, m) == ViewR(TrimStart(s, 0, Len(s), m))
TrimEndR(s, m) == ViewR(TrimEnd(s, 0, Len(s), m))
TrimR(s, m) == ViewR(TrimBoth(s, m))

=============================================================================
