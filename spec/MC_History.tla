----------------------------- MODULE MC_History -----------------------------
(* State graphs of small worlds of objects that share padders and blur layers.*)
(* A world (from the JSON file WORLDS) is a sequence of constructions and a   *)
(* set of candidate calls; its state is the specification's heap.  TLC visits *)
(* every reachable heap, checks that layer results do not depend on what      *)
(* earlier calls left behind in shared padders, and prints every transition,  *)
(* from which the harness makes call histories that take each of them on the  *)
(* real code.                                                                 *)
EXTENDS Library, Json, IOUtils

Worlds == JsonDeserialize(IOEnv.WORLDS)

VARIABLES w, heap, hist
vars == <<w, heap, hist>>

RECURSIVE Build_(_, _, _)
Build_(h, evs, i) == IF i > Len(evs) THEN h ELSE Build_(Eval(h, evs[i]).h, evs, i + 1)
Fresh(k) == Build_([i \in {} |-> 0], Worlds[k].new, 1)
Calls == Worlds[w].calls

Init == /\ w \in 1..Len(Worlds)
        /\ hist = <<>>
        /\ heap = Fresh(w)
Next == /\ Len(hist) < Worlds[w].depth
        /\ \E c \in 1..Len(Calls) :
             LET h2 == Eval(heap, Calls[c]).h
             IN /\ heap' = h2
                /\ hist' = Append(hist, c)
                /\ PrintT(<<"T", w, hist, c, IF h2 = heap THEN 0 ELSE 1>>)
        /\ UNCHANGED w
Hist == Init /\ [][Next]_vars
View == <<w, heap>>

IsPadder(o) == "pw" \in DOMAIN o
(* The heap with every padder as it was constructed.                          *)
Reset(h) == [i \in DOMAIN h |-> IF IsPadder(h[i]) /\ i \in DOMAIN Fresh(w) THEN Fresh(w)[i] ELSE h[i]]
SameAnswer(r, q) ==
  /\ r.st = q.st
  /\ r.st = "ok" => /\ Len(r.ts) = Len(q.ts)
                    /\ \A i \in 1..Len(r.ts) : r.ts[i].s = q.ts[i].s /\ RFirstBad(r.ts[i].d, q.ts[i].d, 0, 0) = 0
OnLayer(c) == c.op \in {"pool", "component", "horizontal", "vertical", "all_components", "unsharp", "metric", "ssim", "ms_ssim"}
WidthsDoNotMatter ==
  \A c \in 1..Len(Calls) :
    OnLayer(Calls[c]) /\ Worlds[w].check[c] => SameAnswer(Eval(heap, Calls[c]), Eval(Reset(heap), Calls[c]))
(* Nothing but padder widths and the documented conversions ever changes.     *)
OnlyDocumented ==
  LET f == Fresh(w) IN
  /\ DOMAIN f \subseteq DOMAIN heap
  /\ \A i \in DOMAIN f :
       LET o == heap[i] IN
       IF IsPadder(f[i]) THEN [o EXCEPT !.pw = f[i].pw] = f[i]
       ELSE IF "stride" \in DOMAIN f[i]
            THEN \/ o = f[i]
                 \/ /\ o.stride = [n |-> 0, it |-> <<1>>]
                    /\ [o EXCEPT !.stride = f[i].stride, !.pad = f[i].pad] = f[i]
       ELSE o = f[i]
=============================================================================
