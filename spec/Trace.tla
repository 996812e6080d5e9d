-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Recorded executions of the real library, checked against the state      *)
(* machine of Ystring.tla.  Each line of the trace is a session            *)
(*   {"c": [call, ...], "r": [reply, ...]}                                 *)
(* that starts with an empty text.  Every session is an initial state of   *)
(* its own; a call whose reply no transition of the machine explains is    *)
(* reported and ends its session.                                          *)
(***************************************************************************)
EXTENDS Ystring

Sessions == ndJsonDeserialize(IOEnv.YS_TRACE)
N == Len(Sessions)

VARIABLES sid, l, st
vars == <<sid, l, st>>

Init == sid \in 1..N /\ l = 1 /\ st = Start(<<>>)

Call == Sessions[sid].c[l]
Reply == Sessions[sid].r[l]
Explains(x) == x[1] = Reply

Step == /\ l > 0 /\ l <= Len(Sessions[sid].c)
        /\ LET e == TLCEval(Effects(st, Call))
               m == {x \in e : Explains(x)}
           IN IF m # {} THEN \E x \in m : st' = x[2] /\ l' = l + 1
              ELSE /\ PrintT(<<"REJECTED", sid, l, ToJson([c |-> Call, r |-> Reply, expected |-> SetToSeq({x[1] : x \in e})])>>)
                   /\ l' = -l /\ st' = st
        /\ sid' = sid
Spec == Init /\ [][Step]_vars

\* The run is not vacuous: as many states as sessions and explained calls, plus
\* one for each rejection, have been reached.
=============================================================================
