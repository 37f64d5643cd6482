----------------------------- MODULE MC_ObjLife -----------------------------
(* The object life table and the protocol agree in every reachable state.  *)
EXTENDS MC_SortCall, ObjLife
ObjUniverse == DOMAIN holds \cup TempIds \cup {-1}
WhereOf(o) == IF o < 0 THEN "outer" ELSE IF o <= n THEN "range" ELSE "temp"
StateOf(o) == IF ~Alive(o) THEN "absent" ELSE IF holds[o] = Hole THEN "hole" ELSE "full"
May(o, op) ==
  CASE op = "construct" -> \E s \in DOMAIN holds : ENABLED MoveConstruct(o, s)
    [] op = "default-construct" -> ENABLED DefaultConstruct(o)
    [] op = "assign to" -> \E s \in DOMAIN holds : ENABLED MoveAssign(o, s)
    [] op = "move from" -> (\E d \in TempIds : ENABLED MoveConstruct(d, o)) \/ (\E d \in DOMAIN holds : ENABLED MoveAssign(d, o))
    [] op = "compare" -> \E l \in BOOLEAN : ENABLED Compare(o, o, l)
    [] op = "project" -> ENABLED Project(o)
    [] op = "self-assign" -> ENABLED SelfAssign(o)
    [] op = "destroy" -> ENABLED Destroy(o)
(* the partner object the action needs is available *)
Partner(o, op) ==
  CASE op \in {"construct", "assign to"} -> \E s \in DOMAIN holds : s # o /\ s > 0
    [] op = "move from" -> (\E d \in TempIds : d # o /\ d > n /\ ~Alive(d)) \/ (\E d \in DOMAIN holds : d # o /\ d > 0 /\ holds[d] = Hole)
    [] OTHER -> TRUE
TableAgrees ==
  phase \in Phases => \A o \in ObjUniverse : (WhereOf(o) = "temp" => o \in TempIds) =>
    \A op \in Ops : Partner(o, op) => (Allowed(phase, WhereOf(o), StateOf(o), op) <=> May(o, op))
=============================================================================
