------------------------------ MODULE MC_Facade ------------------------------
(* All implementations (subsets of the overloads), all calls, all rewrites.   *)
EXTENDS Facade, TLC
VARIABLES F, call, s, done
vars == <<F, call, s, done>>
Init == F \in SUBSET Overloads /\ call \in Calls /\ s = call /\ done = FALSE
Rewrite == ~done /\ ~Accepts(F, call) /\ \E t \in AllRewrites(s) : s' = t /\ UNCHANGED <<F, call, done>>
Run     == ~done /\ Accepts(F, s) /\ done' = TRUE /\ UNCHANGED <<F, call, s>>
Next == Rewrite \/ Run
TypeOK == s \in States
(* no rewrite changes what the call means                                     *)
SameMeaning == Meaning(s) = Meaning(call)
(* what runs is the call itself when the implementation provides it           *)
Exact == done /\ Overload(call) \in F => s = call
Sound == done => s \in Targets(F, call, TRUE)
(* One overload is enough for everything, as documented.                      *)
OneIsEnough == /\ ("I2" \in F => Targets(F, call, TRUE) # {})
               /\ ("I1c" \in F => Targets(F, call, TRUE) # {})
               /\ (call.form = "range" /\ F \cap {"R1c", "R2"} # {} => Targets(F, call, TRUE) # {})
               /\ (F \cap {"I0", "I1c", "I1p", "I2"} # {} /\ Meaning(call) = <<"less", "ident">> => Targets(F, call, TRUE) # {} \/ (F \cap {"I0", "I1c", "I2"} = {} /\ call.proj = "none"))
(* Calls that mean something an implementation cannot express are rejected.   *)
Rejects == (F \subseteq {"I0", "R0"} /\ Meaning(call) # <<"less", "ident">> => Targets(F, call, TRUE) = {})
           /\ (F \subseteq {"I0", "I1p", "R0", "R1p"} /\ Order(call) # "less" => Targets(F, call, TRUE) = {})
           /\ (call.form = "iter" /\ F \cap {"I0", "I1c", "I1p", "I2"} = {} => Targets(F, call, TRUE) = {})
(* The plain rewrites only miss the completion of calls without projection.   *)
Missed == Targets(F, call, TRUE) # {} /\ Targets(F, call, FALSE) = {} => call.proj = "none"
==============================================================================
