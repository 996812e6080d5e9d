------------------------------- MODULE Tables -------------------------------
(***************************************************************************)
(* How the library's Unicode tables stand for the data they are made from. *)
(*                                                                         *)
(* Classes: a sorted list of entries <<first, last, kind, a, b>>; an entry *)
(* covers the code points after the previous one's last up to its own      *)
(* last.  ONE: all are of class b.  ALT: they alternate between upper and  *)
(* lower case letters and the last is of class b.  TWO: all but the last   *)
(* are of class a, the last is of class b.                                 *)
(*                                                                         *)
(* Case mappings: a segment of 32 code points may have one offset, the set *)
(* of its members it applies to, and the set of those known to have no     *)
(* mapping; the rest are looked up in a sorted list.                       *)
(*                                                                         *)
(* Pairs: a sorted list for either direction.                              *)
(***************************************************************************)
EXTENDS Unicode

ONE == 1
ALT == 2
TWO == 3
LU == 0
LL == 1
Case2(a, b) == {a, b} = {LU, LL}
Front1(q) == SubSeq(q, 1, Len(q) - 1)

\* The maximal runs of one class in a sequence of classes.
ClassRuns(w) == FoldLeft(
    LAMBDA out, i : IF out # <<>> /\ Last(out)[5] = w[i]
                    THEN Append(Front1(out), <<Last(out)[1], i, ONE, w[i], w[i]>>)
                    ELSE Append(out, <<i, i, ONE, w[i], w[i]>>),
    <<>>, [i \in 1..Len(w) |-> i])

Single(r) == r[1] = r[2]

\* Join single letters that alternate between the cases.
Alternate(runs) == FoldLeft(
    LAMBDA out, r :
        IF /\ out # <<>> /\ Single(r) /\ r[5] \in {LU, LL} /\ Case2(Last(out)[5], r[5])
           /\ (Last(out)[3] = ALT \/ Single(Last(out)))
        THEN Append(Front1(out), <<Last(out)[1], r[2], ALT, r[5], r[5]>>)
        ELSE Append(out, r),
    <<>>, runs)

\* Join a run and the single code point behind it.
JoinSingles(runs) == FoldLeft(
    LAMBDA out, r :
        IF out # <<>> /\ Single(r) /\ Last(out)[3] = ONE
        THEN Append(Front1(out), <<Last(out)[1], r[2], TWO, Last(out)[5], r[5]>>)
        ELSE Append(out, r),
    <<>>, runs)

ClassTable(w) == JoinSingles(Alternate(ClassRuns(w)))

ClassIn(T, c) ==
    LET hits == {i \in 1..Len(T) : T[i][2] >= c}
    IN IF hits = {} THEN CN
       ELSE LET e == T[Min(hits)]
            IN CASE e[3] = ONE -> e[5]
                 [] e[3] = ALT -> IF (e[2] - c) % 2 = 0 THEN e[5] ELSE 1 - e[5]
                 [] e[3] = TWO -> IF c = e[2] THEN e[5] ELSE e[4]

\* M: the offsets of some members of a segment 0..31.
CaseIn(M, diff, c) ==
    LET affected == {i \in DOMAIN M : M[i] = diff}
        ignorable == (0..31) \ DOMAIN M
    IN IF c \in affected THEN c + diff
       ELSE IF c \in ignorable THEN c
       ELSE c + M[c]

\* The most frequent of the offsets; any of them when several are.
Prevalent(M) == LET n(d) == Cardinality({i \in DOMAIN M : M[i] = d})
                    D == {M[i] : i \in DOMAIN M}
                IN {d \in D : \A e \in D : n(e) <= n(d)}

\* Sorted lists: pairs <<from, to>> ordered by from.
SortedList(f) == SetToSortSeq({<<x, f[x]>> : x \in DOMAIN f}, LAMBDA p, q : p[1] < q[1])
ListAt(L, x, none) == LET hits == {i \in 1..Len(L) : L[i][1] >= x}
                      IN IF hits = {} \/ L[Min(hits)][1] # x THEN none ELSE L[Min(hits)][2]
=============================================================================
