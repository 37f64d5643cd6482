----------------------------- MODULE MC_KeyLife -----------------------------
(* The three-way comparison of two elements through a comparison that takes *)
(* its arguments by value.  Wasteful = TRUE hands the keys over to the first *)
(* of the two comparisons (what `std::forward' twice does): TLC finds that   *)
(* the second one then sees nothing (MC_KeyLife_wasteful).                   *)
EXTENDS KeyLife
CONSTANTS Wasteful, N
VARIABLES pc, a, b, result
mvars == <<ranks, keys, phase, pc, a, b, result>>
PA == "pa" PB == "pb"                        \* parameters of the comparison
Init == /\ ranks \in [1..N -> 0..2] /\ keys = <<>> /\ phase = "running" /\ pc = "project" /\ result = 0
        /\ a \in 1..N /\ b \in 1..N
Stay == UNCHANGED <<a, b>>
Pass(p, k, give) == IF give THEN Move(p, k) ELSE Copy(p, k)
Less == keys[PA] < keys[PB]
Drop2(x, y) == keys' = [k \in DOMAIN keys \ {x, y} |-> keys[k]] /\ UNCHANGED <<ranks, phase>>
Step(p, q) == pc = p /\ pc' = q /\ Stay
Next ==
  \/ Step("project", "project2") /\ Project("ka", ranks[a]) /\ UNCHANGED result
  \/ Step("project2", "first") /\ Project("kb", ranks[b]) /\ UNCHANGED result
  \/ Step("first", "first2") /\ Pass(PA, "ka", Wasteful) /\ UNCHANGED result
  \/ Step("first2", "ask") /\ Pass(PB, "kb", Wasteful) /\ UNCHANGED result
  \/ pc = "ask" /\ Compare(PA, PB, Less) /\ pc' = (IF Less THEN "clean" ELSE "swap") /\ result' = (IF Less THEN -1 ELSE 0) /\ Stay
  \/ Step("swap", "second") /\ Drop2(PA, PB) /\ UNCHANGED result
  \/ Step("second", "second2") /\ Pass(PA, "kb", TRUE) /\ UNCHANGED result
  \/ Step("second2", "ask2") /\ Pass(PB, "ka", TRUE) /\ UNCHANGED result
  \/ pc = "ask2" /\ Compare(PA, PB, Less) /\ pc' = "clean" /\ result' = (IF Less THEN 1 ELSE 0) /\ Stay
  \/ Step("clean", "return") /\ keys' = <<>> /\ UNCHANGED <<ranks, phase, result>>
  \/ Step("return", "end") /\ Return /\ UNCHANGED result
Spec == Init /\ [][Next]_mvars /\ WF_mvars(Next)
Sees == pc \in {"ask", "ask2"} => Holds(PA) /\ Holds(PB)
Right == pc = "end" => result = (IF ranks[a] < ranks[b] THEN -1 ELSE IF ranks[b] < ranks[a] THEN 1 ELSE 0)
Ends == <>(pc = "end")
=============================================================================
