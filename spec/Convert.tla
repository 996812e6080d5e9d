------------------------------ MODULE Convert -------------------------------
(***************************************************************************)
(* UTF-32, case conversion, decomposition and composition of texts.        *)
(***************************************************************************)
EXTENDS Edit

FromUtf32R(q) == {<<"ok", EncAll(q)>>}
ToUtf32R(s) == LET f == Fwd(s, 0, Len(s)) IN {IF f.bad THEN THROW ELSE <<"ok", Points(f)>>}
AppendR(s, c) == {IF Encodable(c) THEN <<"ok", s \o Enc(c)>> ELSE THROW}

(***************************************************************************)
(* Case conversion.                                                        *)
(***************************************************************************)
\* The conversion of a sequence of code points, each to a sequence.
Converted(s, f, g(_)) ==
    IF f.bad \/ \E k \in 1..Len(f.u) : \E j \in 1..Len(g(k)) : ~Encodable(g(k)[j]) THEN THROW
    ELSE <<"ok", Concat([k \in 1..Len(f.u) |-> EncAll(g(k))])>>
LowerR(s) == LET f == Fwd(s, 0, Len(s)) IN {Converted(s, f, LAMBDA k : <<ToLower(f.u[k][3])>>)}
UpperR(s) ==
    LET f == Fwd(s, 0, Len(s))
    IN {Converted(s, f, LAMBDA k : IF f.u[k][3] = SHARP_S THEN <<83, 83>> ELSE <<ToUpper(f.u[k][3])>>)}
TitleR(s) ==
    LET f == Fwd(s, 0, Len(s))
        c(k) == f.u[k][3]
    IN {Converted(s, f, LAMBDA k :
            IF ~IsLetter(c(k)) THEN <<c(k)>>
            ELSE IF k > 1 /\ IsLetter(c(k - 1)) THEN <<ToLower(c(k))>>
            ELSE IF c(k) = SHARP_S THEN <<83, 115>> ELSE <<ToTitle(c(k))>>)}

(***************************************************************************)
(* Decomposition and composition.                                          *)
(***************************************************************************)
\* Code points that do not decompose keep their bytes as they are.
DecomposeText(s, f) ==
    Concat([k \in 1..Len(f.u) |->
        LET c == f.u[k][3] IN IF PairOf(c) = <<>> THEN Slice(s, f.u[k][1], f.u[k][2])
                              ELSE EncAll(Decompose(c))])
ToDecomposedR(s) == LET f == Fwd(s, 0, Len(s)) IN {IF f.bad THEN THROW ELSE <<"ok", DecomposeText(s, f)>>}

\* Items <<code point, bytes>>; the last one absorbs the next unit if the two
\* are the canonical pair of a code point.
ComposeText(s, f) ==
    LET step(acc, u) ==
            LET m == IF acc = <<>> THEN -1 ELSE ComposePair(acc[Len(acc)][1], u[3])
            IN IF m = -1 THEN Append(acc, <<u[3], Slice(s, u[1], u[2])>>)
               ELSE [acc EXCEPT ![Len(acc)] = <<m, Enc(m)>>]
        q == FoldLeft(step, <<>>, f.u)
    IN Concat([k \in 1..Len(q) |-> q[k][2]])
ToComposedR(s) == LET f == Fwd(s, 0, Len(s)) IN {IF f.bad THEN THROW ELSE <<"ok", ComposeText(s, f)>>}

(***************************************************************************)
(* Whole blocks of 256 code points at once: reply <<"ok", values>>, where  *)
(* one value stands for 256 equal ones.                                    *)
(***************************************************************************)
Block(b, g(_)) == LET q == TLCEval([i \in 1..256 |-> g(256 * b + i - 1)])
                  IN IF \A i \in 2..256 : q[i] = q[1] THEN <<q[1]>> ELSE q
BlkLowerR(b) == {<<"ok", Block(b, LAMBDA c : ToLower(c) - c)>>}
BlkUpperR(b) == {<<"ok", Block(b, LAMBDA c : ToUpper(c) - c)>>}
BlkTitleR(b) == {<<"ok", Block(b, LAMBDA c : ToTitle(c) - c)>>}
BlkClassR(b) == {<<"ok", Block(b, Category)>>}
BlkPredR(b) == {<<"ok", Block(b, PredMask)>>}
\* Bytes and read-back of the encoding.
BlkEncodeR(b) == {<<"ok", [i \in 1..256 |-> Enc(256 * b + i - 1)]>>}
BlkDecompR(b) ==
    {<<"ok", LET q == [i \in 1..256 |-> Decompose(256 * b + i - 1)]
             IN IF \A i \in 1..256 : q[i] = <<256 * b + i - 1>> THEN <<>> ELSE q>>}

=============================================================================
