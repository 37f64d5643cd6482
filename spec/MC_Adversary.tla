---------------------------- MODULE MC_Adversary ----------------------------
(* However it is questioned, the adversary never contradicts itself: a pair  *)
(* it answered about is decided, and decided pairs stay as they are, in      *)
(* every later state and in every order that completes the ranks.            *)
EXTENDS Adversary
CONSTANT MaxN
VARIABLE last
Init == \E m \in 1..MaxN : AInit0(m) /\ last = <<1, 1>>
Next == \E a, b \in 1..size : Ask(a, b) /\ last' = <<a, b>>
View == <<size, rank, frozen, pivot, last>>
Decided(a, b) == a = b \/ rank[a] # 0 \/ rank[b] # 0
AnswersDecide == asked > 0 => Decided(last[1], last[2])
DecidedStays == [][\A a, b \in 1..size : Decided(a, b) => (Decided(a, b)' /\ LessIn(rank', a, b) = LessIn(rank, a, b))]_avars
Injective == \A a, b \in 1..size : a # b /\ rank[a] = rank[b] => rank[a] = 0
Strict == \A a, b, c \in 1..size : /\ ~(LessIn(rank, a, b) /\ LessIn(rank, b, a))
                                   /\ (LessIn(rank, a, b) /\ LessIn(rank, b, c) => LessIn(rank, a, c))
                                   /\ (Decided(a, b) /\ a # b => LessIn(rank, a, b) \/ LessIn(rank, b, a))
==============================================================================
