------------------------------ MODULE MC_Format ------------------------------
(* Pad-width formats.  A nested list of (before, after) pairs is moved, pair  *)
(* by pair from its end, to a flat list, and back for a given number of axes. *)
(* Leading axes without a pair get zeros.  Any number of conversions back and *)
(* forth leaves the widths alone.                                             *)
EXTENDS Misc, Json, IOUtils

Cfg == JsonDeserialize(IOEnv.MODEL)
VARIABLES w, nd,            \* original pairs, number of axes (at least Len(w))
          todo, flat,       \* pairs still to move, flat list so far
          phase
vars == <<w, nd, todo, flat, phase>>
RECURSIVE Lists(_, _)
Lists(k, S) == IF k = 0 THEN {<<>>} ELSE {<<v>> \o r : v \in S, r \in Lists(k - 1, S)}
Init == /\ w \in UNION {Lists(k, (0..Cfg.w) \X (0..Cfg.w)) : k \in 1..Cfg.n}
        /\ nd \in Len(w)..(Cfg.n + 1)
        /\ todo = w /\ flat = <<>> /\ phase = "flatten"
Move == /\ phase = "flatten" /\ todo # <<>>
        /\ flat' = flat \o todo[Len(todo)]
        /\ todo' = SubSeq(todo, 1, Len(todo) - 1)
        /\ UNCHANGED <<w, nd, phase>>
Turn == /\ phase = "flatten" /\ todo = <<>>
        /\ PrintT(<<"C", ToJson([w |-> w, nd |-> nd])>>)
        /\ phase' = "nest" /\ UNCHANGED <<w, nd, todo, flat>>
Back == /\ phase = "nest" /\ flat # <<>>
        /\ todo' = << <<flat[1], flat[2]>> >> \o todo
        /\ flat' = SubSeq(flat, 3, Len(flat))
        /\ UNCHANGED <<w, nd, phase>>
Fill == /\ phase = "nest" /\ flat = <<>> /\ Len(todo) < nd
        /\ todo' = << <<0, 0>> >> \o todo
        /\ UNCHANGED <<w, nd, flat, phase>>
Next == Move \/ Turn \/ Back \/ Fill
-----------------------------------------------------------------------------
Done == phase = "nest" /\ flat = <<>> /\ Len(todo) = nd
Prefix == phase = "flatten" => flat = FlatOf(SubSeq(w, Len(todo) + 1, Len(w)))
Nested_ == Done => todo = NestedOf(FlatOf(w), nd)
RoundTrip == Done => /\ SubSeq(todo, nd - Len(w) + 1, nd) = w
                     /\ NestedOf(FlatOf(w), Len(w)) = w
                     /\ FlatOf(NestedOf(FlatOf(w), nd)) = FlatOf(w) \o [i \in 1..(2 * (nd - Len(w))) |-> 0]
=============================================================================
