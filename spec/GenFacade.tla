------------------------------ MODULE GenFacade ------------------------------
(* For every subset of overloads an implementation may provide: what each     *)
(* call may end up as, and the order it must see on sample elements.          *)
(* Lines <<"facade", F, <<<<form, cmp, proj, must, exact, overloads, table>>,  *)
(* ...>>, <<own ranks, ranks of what the projection gives>>>>                 *)
(* and <<"forms", <<form, cmp, proj, order, view>>...>>.                        *)
EXTENDS Facade, Json, IOUtils, TLC
LOCAL INSTANCE SequencesExt
SetAsSeq(S) == SetToSeq(S)
Out     == IOEnv["VP_OUT"]
Bit(o) == CASE o = "I0" -> 1 [] o = "I1c" -> 2 [] o = "I1p" -> 4 [] o = "I2" -> 8 [] o = "R0" -> 16 [] o = "R1c" -> 32 [] o = "R1p" -> 64 [] o = "R2" -> 128
Set(f) == {o \in Overloads : (f \div Bit(o)) % 2 = 1}
(* sample elements: <<own rank, rank of what the projection gives>>           *)
Sample == <<<<2, 1>>, <<1, 2>>, <<2, 3>>, <<3, 1>>, <<1, 1>>>>
Before(m, x, y) == LET a == IF m[2] = "fn" THEN x[2] ELSE x[1]
                       b == IF m[2] = "fn" THEN y[2] ELSE y[1]
                   IN IF m[1] = "less" THEN a < b ELSE b < a
Table(m) == [i \in 1..(Len(Sample) * Len(Sample)) |->
              IF Before(m, Sample[((i - 1) \div Len(Sample)) + 1], Sample[((i - 1) % Len(Sample)) + 1]) THEN 1 ELSE 0]
CallSeq == SetAsSeq(Calls)
CmpName(c) == IF c = <<>> THEN "none" ELSE c[1]
Entry(F, s) == LET t == Targets(F, s, FALSE)  all == Targets(F, s, TRUE) IN
  <<s.form, CmpName(s.cmp), s.proj,
    IF t # {} THEN "must" ELSE IF all # {} THEN "complete" ELSE "not",
    IF Accepts(F, s) THEN 1 ELSE 0, SetAsSeq({Bit(Overload(x)) : x \in all}), Table(Meaning(s))>>
SampleOut == <<[i \in 1..Len(Sample) |-> Sample[i][1]], [i \in 1..Len(Sample) |-> Sample[i][2]]>>
Line(f) == <<"facade", f, [i \in 1..Len(CallSeq) |-> Entry(Set(f), CallSeq[i])], SampleOut>>
Forms2 == <<"forms", 0, [i \in 1..Len(CallSeq) |-> <<CallSeq[i].form, CmpName(CallSeq[i].cmp), CallSeq[i].proj, Order(CallSeq[i]), View(CallSeq[i])>>]>>
VARIABLE done
Init == done = FALSE
Next == /\ ~done /\ done' = TRUE
        /\ ndJsonSerialize(Out, <<Forms2>> \o [f \in 1..256 |-> Line(f - 1)])
==============================================================================
