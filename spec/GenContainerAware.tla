------------------------- MODULE GenContainerAware ---------------------------
(* <<"hooks", H, <<<<cmp, proj, must, exact, hooks, table>>, ...>>, sample>>   *)
EXTENDS ContainerAware, Json, IOUtils, TLC
LOCAL INSTANCE SequencesExt
SetAsSeq(S) == SetToSeq(S)
Out     == IOEnv["VP_OUT"]
Bit(o) == CASE o = "R0" -> 1 [] o = "R1c" -> 2 [] o = "R1p" -> 4 [] o = "R2" -> 8
Set(f) == {o \in Hooks : (f \div Bit(o)) % 2 = 1}
Sample == <<<<2, 1>>, <<1, 2>>, <<2, 3>>, <<3, 1>>, <<1, 1>>>>
Before(m, x, y) == LET a == IF m[2] = "fn" THEN x[2] ELSE x[1]
                       b == IF m[2] = "fn" THEN y[2] ELSE y[1]
                   IN IF m[1] = "less" THEN a < b ELSE b < a
Table(m) == [i \in 1..(Len(Sample) * Len(Sample)) |->
              IF Before(m, Sample[((i - 1) \div Len(Sample)) + 1], Sample[((i - 1) % Len(Sample)) + 1]) THEN 1 ELSE 0]
CallSeq == SetAsSeq(CACalls)
CmpName(c) == IF c = <<>> THEN "none" ELSE c[1]
Entry(H, c) == <<CmpName(c.cmp), c.proj, IF UsesHook(H, c) THEN 1 ELSE 0, IF Accepts(H, c) THEN 1 ELSE 0,
                 SetAsSeq({Bit(Overload(t)) : t \in Allowed(H, c)}), Table(Meaning(c))>>
SampleOut == <<[i \in 1..Len(Sample) |-> Sample[i][1]], [i \in 1..Len(Sample) |-> Sample[i][2]]>>
VARIABLE done
Init == done = FALSE
Next == /\ ~done /\ done' = TRUE
        /\ ndJsonSerialize(Out, [f \in 1..16 |-> <<"hooks", f - 1, [i \in 1..Len(CallSeq) |-> Entry(Set(f - 1), CallSeq[i])], SampleOut>>])
==============================================================================
