-------------------------------- MODULE Pure --------------------------------
(***************************************************************************)
(* The library as a function: whatever was called before, in whatever      *)
(* order, from whatever thread, a piece of work (a text and calls made on  *)
(* it) always gets the replies it got the first time.                      *)
(*                                                                         *)
(* Each line of the trace is a pool of work, the executions in the order   *)
(* in which they happened, and the different replies:                      *)
(*   {"k": [work, ...], "e": [[work number, reply number], ...],           *)
(*    "d": [replies, ...]}                                                 *)
(* The state remembers the first reply to each piece of work.              *)
(***************************************************************************)
EXTENDS Utf8, Json, IOUtils

Pools == ndJsonDeserialize(IOEnv.YS_TRACE)
N == Len(Pools)

VARIABLES sid, l, memo
vars == <<sid, l, memo>>

Init == sid \in 1..N /\ l = 1 /\ memo = [k \in 1..Len(Pools[sid].k) |-> 0]

Step == /\ l > 0 /\ l <= Len(Pools[sid].e)
        /\ sid' = sid
        /\ LET e == Pools[sid].e[l]
               k == e[1]
           IN IF memo[k] \in {0, e[2]} /\ Pools[sid].d[e[2]] \notin {<<<<"crash">>>>, <<<<"hang">>>>}
              THEN l' = l + 1 /\ memo' = [memo EXCEPT ![k] = e[2]]
              ELSE /\ PrintT(<<"REJECTED", sid, l, ToJson([c |-> Pools[sid].k[k], r |-> Pools[sid].d[e[2]],
                                        expected |-> IF memo[k] = 0 THEN <<>> ELSE Pools[sid].d[memo[k]]])>>)
                   /\ l' = -l /\ UNCHANGED memo
Spec == Init /\ [][Step]_vars
=============================================================================
