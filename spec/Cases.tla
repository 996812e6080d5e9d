-------------------------------- MODULE Cases --------------------------------
(***************************************************************************)
(* Frame for checking theorems about the operations on all cases of a      *)
(* finite domain, and for producing the calls with which the real library  *)
(* is then confronted with every one of these cases.                       *)
(*                                                                         *)
(* A module MC_... that extends this one defines Seeds, the cases;         *)
(* Theorem(x), what is to hold of case x; and Script(x), a session of      *)
(* calls that puts case x to the library.                                  *)
(***************************************************************************)
EXTENDS Ystring

CONSTANTS Seeds, Theorem(_), Script(_)

VARIABLES seed, script
K == atoi(IOEnv.YS_BOUND)

Init == seed \in Seeds /\ script = <<>>
Next == script = <<>> /\ script' = Script(seed) /\ UNCHANGED seed
Sound == script # <<>> => Theorem(seed)

\* All sequences of at most n elements of A; all texts of at most n units of U.
Strings(A, n) == UNION {[1..k -> A] : k \in 0..n}
Texts(U, n) == {Concat(q) : q \in Strings(U, n)}
Sub(s) == {Slice(s, a, b) : a, b \in 0..Len(s)}
On(t, calls) == <<<<"text", t>>>> \o calls
\* Calls for all members of a set.
All(S, c(_)) == LET q == SetToSeq(S) IN [i \in 1..Len(q) |-> c(q[i])]
The(R) == CHOOSE r \in R : TRUE
Is(R, r) == R = {r}
Rev(q) == Reverse(q)
Sum(q) == FoldLeft(LAMBDA a, x : a + x, 0, q)
=============================================================================
