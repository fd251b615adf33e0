------------------------------- MODULE MC_Crop -------------------------------
(* Random crops.  The machine chooses the offset on one axis after another;   *)
(* every offset at which the window fits can be chosen.  The window it leaves *)
(* is a block, its offset is recovered from its elements, and all offsets     *)
(* together are as many as the product over the axes says.                    *)
EXTENDS Misc, Json, IOUtils

Cfg == JsonDeserialize(IOEnv.MODEL)
VARIABLES x, want,      \* tensor of distinct elements, size on each axis
          off, t        \* offsets chosen so far, tensor cut so far
vars == <<x, want, off, t>>
ToSet(q) == {q[j] : j \in 1..Len(q)}
RECURSIVE Windows_(_)
Windows_(s) == IF s = <<>> THEN {<<>>} ELSE {<<v>> \o r : v \in 1..Head(s), r \in Windows_(Tail(s))}
Init == \E s \in ToSet(Cfg.shapes) : /\ x = [s |-> s, d |-> [q \in 1..ProdSeq(s) |-> q]]
                                     /\ want \in Windows_(s) /\ off = <<>> /\ t = x
n == Rank(x)
Axis == Len(off)
Cut == /\ Len(off) < n
       /\ \E o \in 0..(x.s[Axis + 1] - want[Axis + 1]) :
            /\ off' = Append(off, o)
            /\ t' = Block(t, [a \in 1..n |-> IF a = Axis + 1 THEN o ELSE 0], [a \in 1..n |-> IF a = Axis + 1 THEN want[a] ELSE t.s[a]])
       /\ UNCHANGED <<x, want>>
Emit == /\ Len(off) = n /\ \A a \in 1..n : off[a] = 0
        /\ PrintT(<<"C", ToJson([s |-> x.s, want |-> want])>>)
        /\ off' = Append(off, 0) /\ UNCHANGED <<x, want, t>>
Next == Cut \/ Emit
-----------------------------------------------------------------------------
Found == Len(off) = n => /\ t.s = want
                         /\ IsBlock(x, t)
                         /\ FindOffset(x, t) = <<off>>
Whole == (Len(off) = n /\ want = x.s) => t = x
=============================================================================
