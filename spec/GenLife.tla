------------------------------- MODULE GenLife ------------------------------
(* Writes the object life table for the drivers: one JSON line per entry.  *)
EXTENDS ObjLife, Json, IOUtils, TLC, SequencesExt
ASSUME ndJsonSerialize(IOEnv.VP_OUT,
  SetToSeq({<<ph, w, s, op, IF Allowed(ph, w, s, op) THEN 1 ELSE 0>> :
     ph \in Phases, w \in Wheres, s \in States, op \in Ops}))
VARIABLE done
Init == done = FALSE
Next == done' = TRUE
=============================================================================
