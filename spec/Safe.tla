-------------------------------- MODULE Safe --------------------------------
(***************************************************************************)
(* Recorded executions of the real library, checked for safety alone:      *)
(* every call replies, with a result or a YstringException (the driver     *)
(* reports crashes, hangs, other exceptions and changed arguments as such  *)
(* replies), an exception leaves the view where it was, and what a call    *)
(* points to lies inside the text.  What the results are is not judged.    *)
(*                                                                         *)
(* The state is the size of the text and the view as the library itself    *)
(* reported them; large results are reported by their size, <<-2, size>>.  *)
(***************************************************************************)
EXTENDS Ystring

Sessions == ndJsonDeserialize(IOEnv.YS_TRACE)
N == Len(Sessions)

VARIABLES sid, l, size, view, res
vars == <<sid, l, size, view, res>>

Init == sid \in 1..N /\ l = 1 /\ size = 0 /\ view = <<0, 0>> /\ res = -1
Bytes(x) == IF Len(x) = 2 /\ x[1] = -2 THEN x[2] ELSE Len(x)

ViewCalls == {"pop", "pop_last", "remove", "remove_last", "unescape_next"}
\* The view is reported by the last two elements of a reply.
Seen(r) == <<r[Len(r) - 1], r[Len(r)]>>
Within(v) == 0 <= v[1] /\ v[1] <= v[2] /\ v[2] <= size
Size(v) == v[2] - v[1]

RangeCalls == {"find_first", "find_last", "ff", "fl", "ffnl", "flnl", "char_range", "next_char", "prev_char",
               "cp_at", "ci_first", "ci_last", "find_escapable", "find_escaped"}
InText(a, n) == n = 0 \/ (a >= 0 /\ n > 0 /\ a + n <= size)

Safe(c, r) ==
    CASE c[1] \in ViewCalls ->
           /\ r[1] \in {"ok", "throw"}
           /\ Within(Seen(r)) /\ Size(Seen(r)) <= Size(view)
           /\ r[1] = "throw" => Seen(r) = view
           /\ r[1] = "ok" /\ r[2] = 1 => Size(Seen(r)) < Size(view)
      [] c[1] \in RangeCalls -> r[1] = "throw" \/ (r[1] = "ok" /\ InText(r[2], r[3]))
      [] c[1] \in ViewOps -> r[1] = "throw" \/ (r[1] = "ok" /\ InText(r[2][1], r[2][2]))
      [] c[1] = "split" -> r[1] = "throw" \/ (r[1] = "ok" /\ \A i \in 1..Len(r[2]) : InText(r[2][i][1], r[2][i][2]))
      [] OTHER -> Orderly(r)

New(n) == size' = n /\ view' = Ends(0, n) /\ res' = -1
After(c, r) ==
    CASE c[1] = "text" -> New(Len(c[2]))
      [] c[1] = "text_rep" -> New(c[3] * Len(c[2]) + Len(c[4]))
      [] c[1] = "keep" -> IF res >= 0 THEN New(res) ELSE UNCHANGED <<size, view, res>>
      [] c[1] = "view_set" -> view' = Ends(c[2], c[3]) /\ UNCHANGED <<size, res>>
      [] c[1] \in ViewCalls -> view' = Seen(r) /\ UNCHANGED <<size, res>>
      [] c[1] \in TextOps /\ r[1] = "ok" -> res' = Bytes(r[2]) /\ UNCHANGED <<size, view>>
      [] c[1] \in ViewOps /\ r[1] = "ok" -> res' = r[2][2] /\ UNCHANGED <<size, view>>
      [] OTHER -> UNCHANGED <<size, view, res>>

Step == /\ l > 0 /\ l <= Len(Sessions[sid].c)
        /\ sid' = sid
        /\ LET c == Sessions[sid].c[l]
               r == Sessions[sid].r[l]
           IN IF Safe(c, r) THEN l' = l + 1 /\ After(c, r)
              ELSE /\ PrintT(<<"REJECTED", sid, l, ToJson([c |-> c, r |-> r, expected |-> <<"a result inside the text or a YstringException">>])>>)
                   /\ l' = -l /\ UNCHANGED <<size, view, res>>
Spec == Init /\ [][Step]_vars
=============================================================================
