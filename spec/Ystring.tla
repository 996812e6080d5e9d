------------------------------- MODULE Ystring -------------------------------
(***************************************************************************)
(* The library as a state machine.                                         *)
(*                                                                         *)
(* A state is what one user of the library holds:                          *)
(*   text  the bytes of the text in hand                                   *)
(*   lo,hi a view of part of it, moved by the popping functions            *)
(*   tok   a token iterator over the text                                  *)
(*   set   a code point set being built                                    *)
(*   res   the last text some operation produced, which <<"keep">> takes   *)
(*         over as the new text                                            *)
(*                                                                         *)
(* A call is a tuple <<name, arguments...>>.  Effects(st, c) is the set of *)
(* all <<reply, next state>> pairs that call c may have in state st.  The  *)
(* model checker explores it (Explore.tla) and recorded executions of the  *)
(* real library are checked against it (Trace.tla).                        *)
(***************************************************************************)
EXTENDS Values

OK == <<"ok">>

NoTok == [ph |-> "none", f |-> <<"none">>, at |-> 0,
          part |-> <<0, 0>>, token |-> <<0, 0>>, rest |-> <<0, 0>>]
Start(t) == [text |-> t, lo |-> 0, hi |-> Len(t), tok |-> NoTok,
             set |-> EmptySet(0), res |-> <<0, <<>>>>]

Huge(m) == IF m < 0 THEN HUGE ELSE m     \* SIZE_MAX is written -1

(***************************************************************************)
(* Calls that leave the state alone.  s is the text.                       *)
(***************************************************************************)
DecodeNextR(s, p, hi) == LET u == UnitAt(s, p, hi)
                         IN {IF u = <<>> THEN <<"ok", INVALID, p>> ELSE <<"ok", u[3], u[2]>>}
DecodePrevR(s, lo, p) == LET u == UnitBefore(s, lo, p)
                         IN {IF u = <<>> THEN <<"ok", INVALID, p>> ELSE <<"ok", u[3], u[1]>>}
\* The safe variants tell the end of the text from malformed bytes.
SafeNextR(s, p, hi) == LET u == UnitAt(s, p, hi)
                       IN {IF p = hi THEN <<"ok", 0, 0, p>>
                           ELSE IF u = <<>> THEN <<"throw", p>> ELSE <<"ok", 1, u[3], u[2]>>}
SafePrevR(s, lo, p) == LET u == UnitBefore(s, lo, p)
                       IN {IF p = lo THEN <<"ok", 0, 0, p>>
                           ELSE IF u = <<>> THEN <<"throw", p>> ELSE <<"ok", 1, u[3], u[1]>>}
SkipNextR(s, p, hi) == {IF p = hi THEN <<"ok", 0, p>> ELSE <<"ok", 1, SkipNext(s, p, hi)>>}
SkipPrevR(s, lo, p) == {IF p = lo THEN <<"ok", 0, p>> ELSE <<"ok", 1, SkipPrev(s, lo, p)>>}

Replies(s, c) ==
    CASE c[1] = "nop" -> {OK}
      \* --- encoding and decoding
      [] c[1] \in {"append", "append_copy"} -> AppendR(s, c[2])
      [] c[1] = "from_utf32" -> FromUtf32R(c[2])
      [] c[1] = "from_cp"    -> FromUtf32R(<<c[2]>>)
      [] c[1] = "to_utf32"   -> ToUtf32R(s)
      [] c[1] = "decode_next" -> DecodeNextR(s, c[2], c[3])
      [] c[1] = "decode_prev" -> DecodePrevR(s, c[2], c[3])
      [] c[1] = "safe_next"  -> SafeNextR(s, c[2], c[3])
      [] c[1] = "safe_prev"  -> SafePrevR(s, c[2], c[3])
      [] c[1] = "skip_next"  -> SkipNextR(s, c[2], c[3])
      [] c[1] = "skip_prev"  -> SkipPrevR(s, c[2], c[3])
      [] c[1] = "is_valid"   -> {<<"ok", Bool(Valid(s))>>}
      [] c[1] \in {"repair", "repair_in"} -> {<<"ok", Repair(s, c[2])>>}
      \* --- searching
      [] c[1] = "find_first" -> FindFirstR(s, c[2], c[3])
      [] c[1] = "find_last"  -> FindLastR(s, c[2], Huge(c[3]))
      [] c[1] = "starts_with" -> StartsWithR(s, c[2])
      [] c[1] = "ends_with"  -> EndsWithR(s, c[2])
      [] c[1] = "contains"   -> ContainsR(s, c[2])
      [] c[1] = "ff"         -> FindFirstOfR(s, c[2], c[3])
      [] c[1] = "fl"         -> FindLastOfR(s, c[2], Huge(c[3]))
      [] c[1] = "ffnl"       -> FirstNewline(s, c[2])
      [] c[1] = "flnl"       -> LastNewline(s, Huge(c[2]))
      \* --- characters and positions
      [] c[1] = "count_chars" -> {CountChars(s)}
      [] c[1] = "char_pos"   -> CharPosR(s, c[2])
      [] c[1] = "char_range" -> {CharRange(s, c[2])}
      [] c[1] = "next_char"  -> {NextChar(s, c[2])}
      [] c[1] = "prev_char"  -> {PrevChar(s, c[2])}
      [] c[1] = "count_cps"  -> {<<"ok", CountCps(s)>>}
      [] c[1] = "cp_pos"     -> {<<"ok", CpPos(s, c[2])>>}
      [] c[1] = "cp_at"      -> {CpAt(s, c[2])}
      [] c[1] = "cp_sub"     -> CpSubR(s, c[2], c[3])
      [] c[1] = "char_sub"   -> CharSubR(s, c[2], c[3])
      [] c[1] = "ins_cp"     -> InsCpR(s, c[2], c[3])
      [] c[1] = "ins_cps"    -> InsCpsR(s, c[2], c[3])
      [] c[1] = "ins_char"   -> InsCharR(s, c[2], c[3])
      [] c[1] = "ins_chars"  -> InsCharsR(s, c[2], c[3])
      [] c[1] = "rep_cps"    -> RepCpsR(s, c[2], c[3], c[4])
      [] c[1] = "rep_chars"  -> RepCharsR(s, c[2], c[3], c[4])
      [] c[1] = "reverse"    -> ReverseR(s)
      \* --- editing
      [] c[1] = "replace"    -> ReplaceR(s, c[2], c[3], c[4])
      [] c[1] = "replace_cp" -> ReplaceCpR(s, c[2], c[3], c[4])
      [] c[1] = "split"      -> IF c[2][1] \in {"cistr", "ciof"}
                                THEN CiSplitR(c[2], s, Huge(c[3]), c[4])
                                ELSE SplitR(c[2], s, Huge(c[3]), c[4])
      [] c[1] = "join"       -> {<<"ok", Join(c[2], c[3])>>}
      [] c[1] = "trim_start" -> TrimStartR(s, c[2])
      [] c[1] = "trim_end"   -> TrimEndR(s, c[2])
      [] c[1] = "trim"       -> TrimR(s, c[2])
      \* --- case
      [] c[1] = "cp_case"    -> {<<"ok", ToLower(c[2]), ToUpper(c[2]), ToTitle(c[2])>>}
      [] c[1] = "lower"      -> LowerR(s)
      [] c[1] = "upper"      -> UpperR(s)
      [] c[1] = "title"      -> TitleR(s)
      [] c[1] = "ci_compare" -> CiCompareR(s, c[2])
      [] c[1] = "ci_equal"   -> CiEqualR(s, c[2])
      [] c[1] = "ci_less"    -> CiLessR(s, c[2])
      [] c[1] = "ci_cp"      -> CiCpR(c[2], c[3])
      [] c[1] = "ci_first"   -> CiFirst(s, c[2], c[3])
      [] c[1] = "ci_last"    -> CiLast(s, c[2], Huge(c[3]))
      [] c[1] = "ci_starts"  -> CiStartsWithR(s, c[2])
      [] c[1] = "ci_ends"    -> CiEndsWithR(s, c[2])
      [] c[1] = "ci_replace" -> CiReplaceR(s, c[2], c[3], c[4])
      \* --- classes and normalization
      [] c[1] = "cls"        -> {<<"ok", Category(c[2])>>}
      [] c[1] = "preds"      -> {<<"ok", PredMask(c[2])>>}
      [] c[1] = "decomp"     -> {<<"ok", Decompose(c[2])>>}
      [] c[1] = "to_decomposed" -> ToDecomposedR(s)
      [] c[1] = "to_composed"   -> ToComposedR(s)
      \* --- escaping
      [] c[1] = "escape_json"    -> EscapeJsonR(s)
      [] c[1] = "find_escapable" -> FindEscapableR(s, c[2])
      [] c[1] = "has_escapable"  -> HasEscapableR(s)
      [] c[1] \in {"unescape", "unescape_in"} -> UnescapeR(s)
      [] c[1] = "find_escaped"   -> FindEscapedR(s, c[2])
      [] c[1] = "has_escaped"    -> HasEscapedR(s)
      \* --- 256 code points at once
      [] c[1] = "blk_lower"  -> BlkLowerR(c[2])
      [] c[1] = "blk_upper"  -> BlkUpperR(c[2])
      [] c[1] = "blk_title"  -> BlkTitleR(c[2])
      [] c[1] = "blk_class"  -> BlkClassR(c[2])
      [] c[1] = "blk_preds"  -> BlkPredR(c[2])
      [] c[1] = "blk_encode" -> BlkEncodeR(c[2])
      [] c[1] = "blk_decode" -> {<<"ok", <<0>>>>}
      [] c[1] = "blk_decomp" -> BlkDecompR(c[2])
      \* --- plain values
      [] c[1] = "subrange"    -> SubrangeR(c[2], c[3], c[4], c[5])
      [] c[1] = "subrange_of" -> SubrangeOfR(c[2], c[3])
      [] c[1] = "u8"          -> U8R(s)
      [] c[1] = "constants"   -> ConstantsR

TextOps == {"append", "append_copy", "from_utf32", "from_cp", "repair", "repair_in", "ins_cp",
            "ins_cps", "ins_char", "ins_chars", "rep_cps", "rep_chars", "reverse", "replace",
            "replace_cp", "join", "lower", "upper", "title", "ci_replace", "to_decomposed",
            "to_composed", "escape_json", "unescape", "unescape_in"}
ViewOps == {"cp_sub", "char_sub", "trim_start", "trim_end", "trim"}

Result(st, c, r) ==
    IF r[1] # "ok" THEN st
    ELSE IF c[1] \in TextOps THEN [st EXCEPT !.res = <<1, r[2]>>]
    ELSE IF c[1] \in ViewOps THEN [st EXCEPT !.res = <<1, Slice(st.text, r[2][1], r[2][1] + r[2][2])>>]
    ELSE st

(***************************************************************************)
(* The view.  A reply names where the view is afterwards; an empty view    *)
(* is reported as <<0, 0>> wherever it is.                                 *)
(***************************************************************************)
Ends(lo, hi) == IF lo = hi THEN <<0, 0>> ELSE <<lo, hi>>
At(st, lo, hi) == [st EXCEPT !.lo = lo, !.hi = hi]
Moved(st, lo, hi, head) == {<<head \o Ends(lo, hi), At(st, lo, hi)>>}

ViewEffects(st, c) ==
    CASE c[1] = "view_set" -> {<<OK, At(st, c[2], c[3])>>}
      [] c[1] = "pop" ->
            LET u == UnitAt(st.text, st.lo, st.hi)
            IN IF st.lo = st.hi THEN Moved(st, st.lo, st.hi, <<"ok", 0, 0>>)
               ELSE IF u = <<>> THEN Moved(st, st.lo, st.hi, THROW)
               ELSE Moved(st, u[2], st.hi, <<"ok", 1, u[3]>>)
      [] c[1] = "pop_last" ->
            LET u == UnitBefore(st.text, st.lo, st.hi)
            IN IF st.lo = st.hi THEN Moved(st, st.lo, st.hi, <<"ok", 0, 0>>)
               ELSE IF u = <<>> THEN Moved(st, st.lo, st.hi, THROW)
               ELSE Moved(st, st.lo, u[1], <<"ok", 1, u[3]>>)
      [] c[1] = "remove" ->
            IF st.lo = st.hi THEN Moved(st, st.lo, st.hi, <<"ok", 0>>)
            ELSE Moved(st, SkipNext(st.text, st.lo, st.hi), st.hi, <<"ok", 1>>)
      [] c[1] = "remove_last" ->
            IF st.lo = st.hi THEN Moved(st, st.lo, st.hi, <<"ok", 0>>)
            ELSE Moved(st, st.lo, SkipPrev(st.text, st.lo, st.hi), <<"ok", 1>>)
      [] c[1] = "unescape_next" ->
            LET u == Unescaped(st.text, st.lo, st.hi)
            IN IF u[1] = -1 THEN Moved(st, st.lo, st.hi, THROW)
               \* The argument 2 means that the caller did not ask which kind it was.
               ELSE Moved(st, u[2], st.hi,
                          <<"ok", IF c[2] = 2 /\ u[1] # 0 THEN 3 ELSE u[1], u[3]>>)

(***************************************************************************)
(* The token iterator.  Every reply shows what it exposes.                 *)
(***************************************************************************)
Exposed(t, has) == <<"ok", has, Bool(t.ph = "at"), t.part, t.token, t.rest>>
TokEffects(st, c) ==
    LET t == st.tok
        n == Len(st.text)
        step(x, r) == <<r, [st EXCEPT !.tok = x]>>
    IN CASE c[1] = "tok_new" ->
              LET x == [NoTok EXCEPT !.ph = "fresh", !.f = c[2], !.rest = View(0, n)]
              IN {step(x, Exposed(x, 0))}
         [] c[1] = "tok_obs" ->
              {<<IF t.ph \in {"none", "off"} THEN <<"off">> ELSE Exposed(t, 0), st>>}
         [] c[1] = "tok_next" ->
              IF t.ph \in {"none", "off"} THEN {<<<<"off">>, st>>}
              ELSE IF t.ph = "end" THEN {<<Exposed(t, 0), st>>}
              ELSE {IF r = THROW THEN step([NoTok EXCEPT !.ph = "off"], THROW)
                    ELSE IF r[3] = 0
                    THEN LET x == [t EXCEPT !.ph = "end", !.at = n, !.part = View(t.at, n),
                                            !.token = <<0, 0>>, !.rest = <<0, 0>>]
                         IN step(x, Exposed(x, 1))
                    ELSE LET e == r[2] + r[3]
                             x == [t EXCEPT !.ph = "at", !.at = e, !.part = View(t.at, r[2]),
                                            !.token = View(r[2], e), !.rest = View(e, n)]
                         IN step(x, Exposed(x, 1))
                    : r \in FindToken(t.f, st.text, t.at)}

(***************************************************************************)
(* The code point set.                                                     *)
(***************************************************************************)
SetEffects(st, c) ==
    LET put(x) == {<<OK, [st EXCEPT !.set = x]>>}
        S == st.set
    IN CASE c[1] = "set_new"   -> put(EmptySet(c[2]))
         [] c[1] = "set_neg"   -> put([S EXCEPT !.neg = c[2]])
         [] c[1] = "set_range" -> put(AddRange(S, c[2], c[3]))
         [] c[1] = "set_cp"    -> put(AddCp(S, c[2]))
         [] c[1] = "set_cps"   -> put(AddCps(S, c[2]))
         [] c[1] = "set_has"   -> {<<<<"ok", [i \in 1..Len(c[2]) |-> Bool(SetHas(S, c[2][i]))]>>, st>>}
         [] c[1] = "set_ci"    -> {<<<<"ok", [i \in 1..Len(c[2]) |-> Bool(SetCiHas(S, c[2][i]))]>>, st>>}
         [] c[1] = "set_print" -> {<<<<"ok", SetPrint(S)>>, st>>}

Fresh(st, t) == [Start(t) EXCEPT !.set = st.set]
Effects(st, c) ==
    CASE c[1] = "text" -> {<<OK, Fresh(st, c[2])>>}
      [] c[1] = "keep" -> {IF st.res[1] = 1 THEN <<<<"ok", 1>>, Fresh(st, st.res[2])>>
                           ELSE <<<<"ok", 0>>, st>>}
      [] c[1] \in {"view_set", "pop", "pop_last", "remove", "remove_last", "unescape_next"}
           -> ViewEffects(st, c)
      [] c[1] \in {"tok_new", "tok_obs", "tok_next"} -> TokEffects(st, c)
      [] c[1] \in {"set_new", "set_neg", "set_range", "set_cp", "set_cps", "set_has", "set_ci",
                   "set_print"} -> SetEffects(st, c)
      [] OTHER -> {<<r, Result(st, c, r)>> : r \in Replies(st.text, c)}

\* What every reply looks like, whatever the call: used by Safe.tla.
Orderly(r) == r[1] \in {"ok", "throw", "off"}
=============================================================================
