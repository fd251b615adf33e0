------------------------------- MODULE Trace -------------------------------
(* Trace validation.  An episode is a recorded sequence of public calls with  *)
(* their observed results; a behaviour of this module replays the episode     *)
(* through the specification (Library!Eval), one call per step, carrying the  *)
(* specification's own heap.  Every step prints a verdict: the empty sequence *)
(* or the broken clauses.  The verdict is total: a rejected call does not stop*)
(* the episode, whose later calls are still judged.                           *)
EXTENDS Library, Json, IOUtils

Episodes == JsonDeserialize(IOEnv.EPISODES)
Explain == "EXPLAIN" \in DOMAIN IOEnv

VARIABLES ep, pos, heap
vars == <<ep, pos, heap>>

Init == /\ ep \in 1..Len(Episodes)
        /\ pos = 1
        /\ heap = [i \in {} |-> 0]
Next == /\ pos <= Len(Episodes[ep].ev)
        /\ LET e == Episodes[ep].ev[pos]
               r == Eval(heap, e)
               f == Failed(heap, e, r)
           IN /\ PrintT(<<"V", ep, pos, r.st, f>>)
              /\ (Explain /\ f # <<>>) => PrintT(<<"E", ep, pos, ToJson([ts |-> r.ts, tr |-> r.tr, st |-> r.st])>>)
              /\ heap' = r.h
        /\ pos' = pos + 1
        /\ UNCHANGED ep
Spec_ == Init /\ [][Next]_vars
(* Every episode is replayed to its end.                                      *)
Wf == pos <= Len(Episodes[ep].ev) + 1
=============================================================================
