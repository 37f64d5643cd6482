---------------------------- MODULE GenCounting -----------------------------
(* Chains of counters and adapters with the relations their calls have to    *)
(* satisfy: lines <<chain, projection given, relations>>.                     *)
(* Environment: VP_OUT, VP_SEED, VP_SHARD, VP_NSHARDS, VP_CHAINS.             *)
EXTENDS MC_Counting, Patterns, Json, IOUtils, TLC
LOCAL INSTANCE SequencesExt
SetAsSeq(S) == SetToSeq(S)
Env0(name, default) == IF name \in DOMAIN IOEnv THEN IOEnv[name] ELSE default
Seed    == atoi(Env0("VP_SEED", "1")) % 30000
Shard   == atoi(Env0("VP_SHARD", "0"))
NShards == atoi(Env0("VP_NSHARDS", "1"))
NChains == atoi(Env0("VP_CHAINS", "120"))
Short == SetAsSeq({c \in Chains : Len(c) <= 1})
Pairs == SetAsSeq({c \in Chains : Len(c) = 2 /\ \E i \in 1..2 : Counts(c[i]) \/ c[i] = "schwartz"})
Long  == SetAsSeq({c \in Chains : Len(c) = 3 /\ \E i, j \in 1..3 : i < j /\ (Counts(c[i]) \/ c[i] = "schwartz") /\ (Counts(c[j]) \/ c[j] = "schwartz")})
Drawn(q, k, salt) == IF Len(q) <= k THEN {q[i] : i \in 1..Len(q)} ELSE {q[Rnd(Seed, salt + i, Len(q)) + 1] : i \in 1..k}
Chosen == SetAsSeq({Short[i] : i \in 1..Len(Short)} \cup Drawn(Pairs, NChains \div 2, 11) \cup Drawn(Long, NChains \div 2, 5003))
Mine == {k \in 1..Len(Chosen) : k % NShards = Shard}
ASSUME ndJsonSerialize(Env0("VP_OUT", "/dev/null"), SetAsSeq({<<Chosen[k], IF p THEN 1 ELSE 0, SetAsSeq(Relations(Chosen[k], p))>> : k \in Mine, p \in BOOLEAN}))
VARIABLE done
GInit == done = TRUE /\ Start(<<>>, FALSE, 0)
GNext == UNCHANGED <<done, vars>>
=============================================================================
