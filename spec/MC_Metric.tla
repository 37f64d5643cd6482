------------------------------ MODULE MC_Metric -----------------------------
EXTENDS Metric, Json, IOUtils, TLC
LOCAL INSTANCE SequencesExt
SetAsSeq(S) == SetToSeq(S)
Out == IF "VP_OUT" \in DOMAIN IOEnv THEN IOEnv["VP_OUT"] ELSE "/dev/null"
(* Behaviours to replay: every one of them, with the comparisons at the end. *)
Line == <<log, Compare(a, b), Compare(b, a)>>
Emit == (Len(log) = MaxSteps + 1) => TLCSet(1, TLCGet(1) \cup {Line})
ASSUME TLCSet(1, {})
Write == ndJsonSerialize(Out, SetAsSeq(TLCGet(1)))
=============================================================================
