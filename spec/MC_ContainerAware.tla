------------------------- MODULE MC_ContainerAware ---------------------------
EXTENDS ContainerAware, TLC
VARIABLES H, call, s, ran
vars == <<H, call, s, ran>>
Init == H \in SUBSET Hooks /\ call \in CACalls /\ s = call /\ ran = "nothing"
Rewrite == /\ ran = "nothing" /\ ~Accepts(H, s) /\ \E t \in AddLess(s) \cup Bake(s) : s' = t
           /\ UNCHANGED <<H, call, ran>>
Hook    == ran = "nothing" /\ Accepts(H, s) /\ ran' = "hook" /\ UNCHANGED <<H, call, s>>
Sorter  == ran = "nothing" /\ ~UsesHook(H, call) /\ ran' = "sorter" /\ s' = call /\ UNCHANGED <<H, call>>
Next == Rewrite \/ Hook \/ Sorter
SameMeaning == Meaning(s) = Meaning(call)
Exact   == ran = "hook" /\ Accepts(H, call) => s = call
InSet   == ran = "hook" => s \in Expected(H, call) /\ s \in Allowed(H, call)
NoHooks == ran = "hook" => H # {}
(* a hook with a comparison is enough for every call that has a projection or a comparison *)
OneIsEnough == "R1c" \in H /\ (call.cmp # <<>> \/ call.proj # "none") => UsesHook(H, call)
==============================================================================
