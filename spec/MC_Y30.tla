------------------------------- MODULE MC_Y30 -------------------------------
(* Taking characters off a view, escaped or not, from both ends. *)
EXTENDS Explore
U == {<<92>>, <<117>>, <<68, 56, 51, 68>>, <<68, 101, 48, 49>>, <<120>>, <<52>>, <<56>>, <<10>>, <<195, 169>>, <<195>>}
V == {<<92, 117, 68, 56, 51, 68>>, <<92, 117, 68, 69, 48, 48>>, <<92, 117>>, <<92, 10>>, <<65>>, <<92, 120, 52>>,
      <<92, 51, 55>>, <<48, 48, 52>>}
MCSeeds == Texts(U, 3) \cup Texts(V, 3) \cup {<<92, c>> : c \in 0..255}
           \cup {<<92, 85, 48, 48, 48>> \o q : q \in Texts({<<49>>, <<48, 48>>, <<70>>, <<103>>}, 3)}
           \cup {<<92, 120>> \o [i \in 1..n |-> 48] \o <<49, 50>> : n \in 0..9}
\* The first call narrows the view on some texts; then one character after the other.
MCMenu(s, h) ==
    (IF Len(h) = 1 /\ Len(s.text) \in 2..7 THEN {<<"view_set", 0, Len(s.text) - 1>>} ELSE {})
    \cup {<<"unescape_next", IF Len(h) % 3 = 1 THEN 0 ELSE IF Len(h) % 3 = 2 THEN 1 ELSE 2>>}
MCHolds(s, c, r, t) == c[1] = "unescape_next" =>
    LET n == PastContinuations(s.text, s.lo, s.hi)
    IN /\ t.hi = s.hi /\ t.lo >= s.lo /\ t.lo <= t.hi /\ t.text = s.text
       \* An exception leaves the view as it was; otherwise it shrinks, or was at its end.
       /\ r[1] = "throw" => t = s
       /\ r[1] = "ok" /\ r[2] = 0 => n = s.hi /\ t.lo = t.hi
       /\ r[1] = "ok" /\ r[2] # 0 => t.lo > n
       \* What is taken does not depend on the text that follows a complete character,
       \* but for digits and the second half of a pair.
       /\ r[1] = "ok" /\ r[2] # 0 => LET u == Unescaped(s.text, s.lo, t.lo) IN u[1] # -1 /\ u[2] = t.lo /\ u[3] = r[3]
       \* A plain character is one that decoding gives.
       /\ r[1] = "ok" /\ r[2] = 1 => UnitAt(s.text, n, s.hi) = <<n, t.lo, r[3]>>
=============================================================================
