----------------------------- MODULE MC_Windows -----------------------------
(* A window slides along a padded axis.  Every state is one position of the   *)
(* window; the output of each position is accumulated.  Checked: the number of*)
(* positions is the predicted output size, the counts of original elements    *)
(* are the coverage counts, the accumulated dot products are the correlation; *)
(* and for widths chosen by the same-padding rule, the number of positions is *)
(* ceil(n / s), no smaller total width would do, the extra element goes       *)
(* before, and every window sees at least one original element.               *)
EXTENDS Pooling, Json, IOUtils

Cfg == JsonDeserialize(IOEnv.MODEL)
VARIABLES kind,               \* "free": any widths; "same": widths by the rule
          n, k, s, d, pb, pa, \* length, window, stride, dilation, widths
          pos,                \* start of the next window in the padded axis
          cov, dots
vars == <<kind, n, k, s, d, pb, pa, pos, cov, dots>>

Sig(m) == [i \in 1..m |-> RPow(Cfg.radix, i)]       \* generic signal
Ker(m) == [i \in 1..m |-> RPow(Cfg.radix, 20 * i)]  \* and kernel
(* Zeros outside the original elements.                                       *)
Padded == [i \in 1..(pb + n + pa) |-> IF i <= pb \/ i > pb + n THEN 0 ELSE Sig(n)[i - pb]]

Init == /\ kind \in {Cfg.kinds[i] : i \in 1..Len(Cfg.kinds)}
        /\ n \in 1..Cfg.n /\ k \in 1..Cfg.k /\ s \in 1..Cfg.s
        /\ IF kind = "same"
           THEN /\ d = 1
                /\ LET w == SamePair(k, <<s>>, <<n>>).p IN pb = w[1] /\ pa = w[2]
           ELSE d \in 1..Cfg.d /\ pb \in 0..Cfg.pad /\ pa \in 0..Cfg.pad
        /\ pos = 0 /\ cov = <<>> /\ dots = <<>>
Span == d * (k - 1) + 1
Fits_ == pos >= 0 /\ pos + Span <= pb + n + pa
Slide == /\ Fits_
         /\ LET at == [j \in 1..k |-> pos + d * (j - 1) + 1]
            IN /\ cov' = Append(cov, Cardinality({j \in 1..k : at[j] > pb /\ at[j] <= pb + n}))
               /\ dots' = Append(dots, RDot([j \in 1..k |-> Padded[at[j]]], Ker(k)))
         /\ pos' = pos + s
         /\ UNCHANGED <<kind, n, k, s, d, pb, pa>>
Case == [kind |-> kind, n |-> n, k |-> k, s |-> s, d |-> d, pb |-> pb, pa |-> pa]
Stop == /\ ~Fits_ /\ pos >= 0
        /\ PrintT(<<"C", ToJson(Case)>>)
        /\ pos' = -1
        /\ UNCHANGED <<kind, n, k, s, d, pb, pa, cov, dots>>
Next == Slide \/ Stop

-----------------------------------------------------------------------------
Ended == pos = -1
Predicted == Ended => Len(dots) = OutLen(pb + n + pa, k, s, d)
Counted == (Ended /\ d = 1) => cov = Coverage(n, pb, pa, k, s)
Correlated == Ended =>
  LET c == Conv1(Padded, Ker(k), s, d)
  IN Len(c) = Len(dots) /\ \A i \in 1..Len(c) : REq(c[i], dots[i])
(* Same padding.                                                              *)
Need(t) == OutLen(n + t, k, s, 1)
SameRule == (Ended /\ kind = "same") =>
  /\ Len(dots) = CeilDiv(n, s)
  /\ pb - pa \in {0, 1}
  /\ pb + pa > 0 => Need(pb + pa - 1) < CeilDiv(n, s)
  /\ s = 1 => Len(dots) = n
  /\ \A i \in 1..Len(cov) : cov[i] >= 1
(* With unit stride the rule needs no length.                                 *)
UnitStride == (kind = "same" /\ s = 1) => SamePair(k, <<1>>, <<>>).p = <<pb, pa>>
(* Without overlap and padding every element is counted at most once, and in  *)
(* total a filter of stride 1 and full padding counts each one k times.       *)
Conserved == (Ended /\ d = 1 /\ pb >= k - 1 /\ pa >= k - 1 /\ s = 1) => RSum(cov) = n * k
=============================================================================
