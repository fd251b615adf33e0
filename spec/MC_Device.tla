------------------------------ MODULE MC_Device ------------------------------
(* Where tensors live.  A layer owns constants (kernels) that the user created*)
(* on some device, and is called with inputs on this or that device, in every *)
(* order.  A call copies the constants to the input's device, computes there  *)
(* (a computation whose operands lie on different devices fails), and returns.*)
(* The layers share one constant (a blur layer or padder), number 0.          *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Cfg == JsonDeserialize(IOEnv.MODEL)
Dev == {"cpu", "accel"}
Layers == 1..Cfg.layers
VARIABLES home,      \* device of every constant
          given,     \* the same, as the user made them
          pc,        \* what the running call does next
          call,      \* the running call: [l, d]
          temp,      \* device of the copies of the constants it works with
          hist       \* finished calls: [l, d, out]
vars == <<home, given, pc, call, temp, hist>>
Consts(l) == {0, l}
None == [l |-> 0, d |-> "cpu"]
NoTemp == [c \in {} |-> "cpu"]
Init == /\ home \in [0..Cfg.layers -> Dev] /\ given = home
        /\ pc = "idle" /\ call = None /\ temp = NoTemp /\ hist = <<>>
Call == /\ pc = "idle" /\ Len(hist) < Cfg.calls
        /\ \E l \in Layers, d \in Dev : call' = [l |-> l, d |-> d]
        /\ pc' = "move" /\ temp' = NoTemp /\ UNCHANGED <<home, given, hist>>
Move == /\ pc = "move"        \* one constant at a time, in any order
        /\ IF DOMAIN temp = Consts(call.l) THEN pc' = "compute" /\ UNCHANGED temp
           ELSE /\ \E c \in Consts(call.l) \ DOMAIN temp : temp' = [k \in DOMAIN temp \cup {c} |-> call.d]
                /\ UNCHANGED pc
        /\ UNCHANGED <<home, given, call, hist>>
SameDevice == \A c \in DOMAIN temp : temp[c] = call.d
Compute == /\ pc = "compute" /\ pc' = "idle"
           /\ hist' = Append(hist, [l |-> call.l, d |-> call.d, out |-> IF SameDevice THEN call.d ELSE "error"])
           /\ call' = None /\ temp' = NoTemp /\ UNCHANGED <<home, given>>
Emit == /\ pc = "idle" /\ Len(hist) = Cfg.calls
        /\ PrintT(<<"C", ToJson([home |-> [i \in 1..(Cfg.layers + 1) |-> given[i - 1]], calls |-> [i \in 1..Len(hist) |-> [l |-> hist[i].l, d |-> hist[i].d]]])>>)
        /\ pc' = "done" /\ UNCHANGED <<home, given, call, temp, hist>>
Next == Call \/ Move \/ Compute \/ Emit
-----------------------------------------------------------------------------
Follows == \A i \in 1..Len(hist) : hist[i].out = hist[i].d     \* result where the input is
Kept == home = given                                          \* constants stay the user's
=============================================================================
