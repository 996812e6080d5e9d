------------------------------- MODULE MC_Y34 -------------------------------
(* The tables say what the data say, for every small arrangement of classes,
   of case offsets within a segment, and of pairs.  The arrangements are put
   into Unicode data files from which the real tables are then made. *)
EXTENDS Cases, Tables

ArrClasses == {0, 1, 2, 5, 29}
ArrOffsets == {0, 1, 32, -40}              \* 0: no mapping
ArrPlaces == <<0, 1, 15, 30, 31>>
N == IF K > 1 THEN 6 ELSE 5

\* Pairs: x, y, z are 1, 2, 3; each may be a pair of something before it (0: a
\* letter) and one of two marks.
ArrPair(i) == {<<>>} \cup {<<j, m>> : j \in 0..(i - 1), m \in {1, 2}}
ArrPairs == {p \in [1..3 -> UNION {ArrPair(i) : i \in 1..3}] :
               /\ \A i \in 1..3 : p[i] \in ArrPair(i)
               /\ \A i, j \in 1..3 : i # j /\ p[i] = p[j] => p[i] = <<>>}

MCSeeds == {<<0, par, w>> : par \in {0, 1}, w \in [1..N -> ArrClasses]}
           \cup {<<1, 0, o>> : o \in [1..5 -> ArrOffsets]}
           \cup {<<2, flip, p>> : flip \in {0, 1}, p \in ArrPairs}

ClassesRight(w) ==
    \A pre, post \in {<<29, 29>>, <<0>>, <<1>>, <<4>>} :
        LET v == pre \o w \o post
            T == ClassTable(v)
        IN /\ \A i \in 1..Len(v) : ClassIn(T, i) = v[i]
           /\ Len(T) <= Len(ClassRuns(v))
           /\ \A i \in 1..Len(T) : T[i][1] = (IF i = 1 THEN 1 ELSE T[i - 1][2] + 1)
           /\ ClassIn(T, Len(v) + 1) = CN

CasesRight(o) ==
    LET D == {i \in 1..5 : o[i] # 0}
        M == [c \in {ArrPlaces[i] : i \in D} |-> LET i == CHOOSE i \in D : ArrPlaces[i] = c IN o[i]]
    IN \A d \in Prevalent(M) : \A c \in 0..31 :
          CaseIn(M, d, c) = (IF c \in DOMAIN M THEN c + M[c] ELSE c)

PairsRight(p) ==
    LET D == {i \in 1..3 : p[i] # <<>>}
        f == [i \in D |-> p[i]]
        L == SortedList(f)
        key(q) == 10 * q[1] + q[2]
        R == SortedList([k \in {key(p[i]) : i \in D} |-> CHOOSE i \in D : key(p[i]) = k])
    IN \A i \in 1..3 :
          /\ ListAt(L, i, <<>>) = p[i]
          /\ i \in D => ListAt(R, key(p[i]), 0) = i

MCTheorem(x) == IF x[1] = 0 THEN ClassesRight(x[3])
                ELSE IF x[1] = 1 THEN CasesRight(x[3])
                ELSE PairsRight(x[3])
MCScript(x) == <<x>>
=============================================================================
