------------------------------- MODULE Metric -------------------------------
(***************************************************************************)
(* utility::metric: a value with a tag. Two metrics of one tag -- a of one *)
(* value type and b of another -- and a metric c with another tag live     *)
(* through assignments; what is assigned is the value, and comparisons are *)
(* those of the values. utility::metrics holds a and c by position and tag.*)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS Values, MaxSteps
VARIABLES a, b, c, log
Init == \E x, y, z \in Values : a = x /\ b = y /\ c = z /\ log = <<<<"init", x, y, z>>>>
Op(o, x, y, z) == a' = x /\ b' = y /\ c' = z /\ log' = Append(log, <<o, x, y, z>>)
Step == \/ Op("a=b", b, b, c) \/ Op("b=a", a, a, c)                       \* converting assignments
        \/ Op("a=move(b)", b, b, c) \/ Op("b=move(a)", a, a, c)           \* arithmetic values are still there afterwards
        \/ \E v \in Values : Op("a=value", v, b, c) \/ Op("c=value", a, b, v)
        \/ Op("a=copy", a, b, c) \/ Op("b=metric(a)", a, a, c)
        \/ \E v \in Values : Op("get<a>=value", v, b, c) \/ Op("get<0>=value", v, b, c) \/ Op("get<c>=value", a, b, v)
Next == Len(log) <= MaxSteps /\ Step
(* Comparisons with each other and with plain values, either way around.    *)
Compare(x, y) == <<IF x = y THEN 1 ELSE 0, IF x # y THEN 1 ELSE 0, IF x < y THEN 1 ELSE 0, IF x <= y THEN 1 ELSE 0, IF x > y THEN 1 ELSE 0, IF x >= y THEN 1 ELSE 0>>
(* Design: the order of metrics is the order of their values.               *)
Ordered == LET r == Compare(a, b)  s == Compare(b, a) IN
           /\ r[1] + r[2] = 1 /\ r[3] + r[6] = 1 /\ r[4] + r[5] = 1 /\ r[3] = s[5] /\ r[4] = s[6] /\ r[1] = s[1]
LastEvent == log[Len(log)]
Kept == <<a, b, c>> = <<LastEvent[2], LastEvent[3], LastEvent[4]>>
=============================================================================
