------------------------------- MODULE ObjLife ------------------------------
(***************************************************************************)
(* SortCall projected on one object: what may happen to an object,         *)
(* depending on where it lives and on its state.  The table is what the    *)
(* monitor compiled into the C++ drivers follows; MC_ObjLife checks, in    *)
(* every reachable state of the protocol, that it says exactly what the    *)
(* actions of SortCall allow.                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences
Phases == {"running", "unwinding"}
Wheres == {"range", "outer", "temp"}
States == {"absent", "hole", "full"}
Ops == {"construct", "default-construct", "assign to", "move from", "compare", "project", "destroy", "self-assign"}
Allowed(ph, w, s, op) ==
  CASE w = "outer" -> FALSE
    [] op = "construct" -> w = "temp" /\ s = "absent"
    [] op = "default-construct" -> w = "temp" /\ s = "absent" /\ ph = "running"
    [] op = "assign to" -> s = "hole"
    [] op = "move from" -> s \in {"full", "hole"}
    [] op = "self-assign" -> s = "hole"
    [] op \in {"compare", "project"} -> s = "full" /\ ph = "running"
    [] op = "destroy" -> w = "temp" /\ (s = "hole" \/ (s = "full" /\ ph = "unwinding"))
=============================================================================
