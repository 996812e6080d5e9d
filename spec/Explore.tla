------------------------------- MODULE Explore -------------------------------
(***************************************************************************)
(* Frame for exploring the state machine: all sequences of at most Depth   *)
(* calls from a menu, started with each of some texts.  hist is the        *)
(* session that led to a state; rep is the reply to its last call.         *)
(***************************************************************************)
EXTENDS Ystring

CONSTANTS Seeds, Menu(_, _), Holds(_, _, _, _)

VARIABLES st, hist, rep
vars == <<st, hist, rep>>
K == atoi(IOEnv.YS_BOUND)

Init == \E t \in Seeds : st = Start(t) /\ hist = <<<<"text", t>>>> /\ rep = OK
Next == /\ Len(hist) <= K
        /\ \E c \in Menu(st, hist) : \E x \in Effects(st, c) :
              st' = x[2] /\ rep' = x[1] /\ hist' = Append(hist, c)
\* What is to hold of every step: the state before, the call, the reply, the state after.
Sound == [][Holds(st, hist'[Len(hist')], rep', st')]_vars

Strings(A, n) == UNION {[1..k -> A] : k \in 0..n}
Texts(U, n) == {Concat(q) : q \in Strings(U, n)}
=============================================================================
