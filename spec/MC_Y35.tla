------------------------------- MODULE MC_Y35 -------------------------------
(* Ranges of all sizes against one another; positions within small texts;
   the constants against the categories. *)
EXTENDS Cases
Sizes == {-1, 0, 1, 2, 9, 10, 100, 99999, 1000000000}
Units == {<<97>>, <<195, 169>>, <<0>>, <<128>>}
MCSeeds == {<<0, o, n>> : o, n \in Sizes}
           \cup {<<1, t>> : t \in Texts(Units, IF K > 1 THEN 4 ELSE 3)}
           \cup {<<2>>}
Second == IF K > 1 THEN Sizes ELSE {-1, 0, 1, 10}
RangesRight(o, n) ==
    \A p, m \in Sizes :
       LET r == The(SubrangeR(o, n, p, m))
           q == The(SubrangeR(p, m, o, n))
       IN /\ r[7] = q[7] /\ r[8] = 1 - r[7]
          /\ r[7] = 1 <=> <<o, n>> = <<p, m>>
          \* They print alike only if they are equal.
          /\ r[9] = q[9] <=> r[7] = 1
          /\ r[7] = 1 => r[6] = q[6] /\ r[5] = q[5]
TextRight(t) == /\ \A a \in 0..Len(t) : \A b \in a..Len(t) :
                     The(SubrangeOfR(a, b))[3] = Len(Slice(t, a, b))
                /\ The(U8R(t))[6] = t
ConstantsRight ==
    LET c == The(ConstantsR)
        bit(m, k) == ((m \div (2 ^ k)) % 2) = 1
    IN /\ \A k \in 0..29 : \A j \in 0..29 : bit(c[2 + k], j) <=> k = j
       /\ \A k \in 0..29 : Cardinality({i \in 2..8 : bit(c[31 + i], k)}) = 1
       /\ \A p \in {65, 97, 453, 688, 48, 8544, 768, 95, 36, 32, 8232, 0, 173, 55296, 57344, 65535} :
             LET k == Category(p)
             IN /\ bit(c[33], k) <=> IsLetter(p)
                /\ bit(c[34], k) <=> IsMark(p)
       /\ \A i \in 1..Len(c[46]) : IsNewline(c[46][i]) \/ c[46][i] \in {9, 32}
       /\ ToSet(c[47]) \subseteq ToSet(c[46])
MCTheorem(x) == IF x[1] = 0 THEN RangesRight(x[2], x[3]) ELSE IF x[1] = 1 THEN TextRight(x[2]) ELSE ConstantsRight
MCScript(x) ==
    IF x[1] = 0 THEN <<<<"text", <<>>>>>> \o All(Second \X Second, LAMBDA q : <<"subrange", x[2], x[3], q[1], q[2]>>)
                     \o <<<<"subrange", x[2], x[3], x[2], x[3]>>>>
    ELSE IF x[1] = 1
    THEN On(x[2], <<<<"u8">>>> \o All({q \in (0..Len(x[2])) \X (0..Len(x[2])) : q[1] <= q[2]},
                                      LAMBDA q : <<"subrange_of", q[1], q[2]>>))
    ELSE <<<<"text", <<>>>>, <<"constants">>>>
=============================================================================
