--------------------------- MODULE GenPermutation ---------------------------
(* <<tag, keys, perm, labels>>: the keys, their stable outcome, and the     *)
(* cycle each element belongs to.  "p": keys is itself a permutation whose  *)
(* outcome is its inverse; all of them up to a size.                        *)
EXTENDS Indirect, Patterns, Json, IOUtils
Env(name, default) == IF name \in DOMAIN IOEnv THEN IOEnv[name] ELSE default
Seed    == atoi(Env("VP_SEED", "1")) % 30000
Shard   == atoi(Env("VP_SHARD", "0"))
NShards == atoi(Env("VP_NSHARDS", "1"))
Plan    == Env("VP_PLAN", "quick")
Dense(a, b) == [i \in 1..(b - a + 1) |-> a + i - 1]
PermN == CASE Plan = "trace" -> 4 [] Plan = "thorough" -> 8 [] OTHER -> 7
WeakN == CASE Plan = "trace" -> 3 [] Plan = "thorough" -> 6 [] OTHER -> 5
SizePlan == CASE Plan = "trace" -> <<5, 7, 9, 12, 16>> [] Plan = "thorough" -> Dense(8, 130) \o <<150, 200, 257, 400, 600, 1000, 1500>>
              [] OTHER -> Dense(8, 40) \o <<50, 64, 65, 90, 129, 200, 300, 600>>
Thin == IF Plan = "trace" THEN 5 ELSE 1
Emit(tag, keys) == LET k == TLCEval(keys)  p == TLCEval(FastStablePerm(k)) IN <<tag, k, p, CycleLabel(p)>>
RECURSIVE PermSeqs(_)
PermSeqs(m) == IF m = 0 THEN {<<>>} ELSE
  {[i \in 1..m |-> IF i < k THEN q[i] ELSE IF i = k THEN m ELSE q[i - 1]] : k \in 1..m, q \in PermSeqs(m - 1)}
Mine(w, m) == (w[1] * 3 + w[m] * 5 + w[(m \div 2) + 1] * 7) % NShards = Shard
AllPerms == UNION {{Emit("p", w) : w \in {v \in PermSeqs(m) : Mine(v, m)}} : m \in 1..PermN}
AllWeak == UNION {{Emit("w", w) : w \in {v \in WeakOrders(m) : Mine(v, m)}} : m \in 2..WeakN}
Items == LET K == Len(SizePlan) * (NFamilies + 1)
         IN {x \in 0..(K - 1) : x % NShards = Shard /\ (x + Seed) % Thin = 0}
Shape(x) == LET m == SizePlan[(x \div (NFamilies + 1)) + 1]  f == (x % (NFamilies + 1)) + 1  s == (Seed * 61) + m IN
  IF f > NFamilies THEN FastStablePerm([k \in 1..m |-> Rnd(s, k, 30011)]) ELSE Pattern(f, m, s)
(* both the pattern and the permutation that sorts it                       *)
Shaped == {Emit("w", Shape(x)) : x \in Items} \cup {Emit("p", FastStablePerm(Shape(x))) : x \in Items}
Empty == IF Shard = 0 THEN {<<"p", <<>>, <<>>, <<>>>>, <<"w", <<>>, <<>>, <<>>>>} ELSE {}
All == SetToSeq0(AllPerms) \o SetToSeq0(AllWeak) \o SetToSeq0(Shaped) \o SetToSeq0(Empty)
ASSUME ndJsonSerialize(Env("VP_OUT", "/dev/null"), All)
Init == n = 0 /\ idx = <<>> /\ at = <<>> /\ moved = <<>> /\ swapped = <<>> /\ phase = "idle"
Next == UNCHANGED ivars
==============================================================================
