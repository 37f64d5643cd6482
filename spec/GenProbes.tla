------------------------------ MODULE GenProbes ------------------------------
(* Replay vectors for the probes: <<tag, keys, <<>>, <<lo, hi>> per measure>> *)
(* in the order of Presortedness!Names; and <<"max", <<n>>, <<>>, maxima>>.   *)
EXTENDS Presortedness, Patterns, Json, IOUtils
Env(name, default) == IF name \in DOMAIN IOEnv THEN IOEnv[name] ELSE default
Seed    == atoi(Env("VP_SEED", "1")) % 30000
Shard   == atoi(Env("VP_SHARD", "0"))
NShards == atoi(Env("VP_NSHARDS", "1"))
Plan    == Env("VP_PLAN", "quick")
ExhaustiveN == IF Plan = "thorough" THEN 7 ELSE 6
Dense(a, b) == [i \in 1..(b - a + 1) |-> a + i - 1]
SizePlan == IF Plan = "thorough" THEN Dense(8, 80) \o <<90, 100, 127, 128, 129, 150, 200, 257, 300, 400>>
            ELSE Dense(7, 27) \o <<30, 33, 40, 41, 48, 65, 90, 129, 200>>
Repeat(n) == IF n <= 30 THEN 4 ELSE 1

Bounds(k, perm) == [i \in 1..Len(Names) |->
   CASE Names[i] = "exc" -> (IF Len(k) <= 5 /\ ~InOrder(k) THEN LET S == SetToSeq0(ExcSet(k)) IN <<MinOf(S, S[1]), MaxOf(S, S[1])>> ELSE ExcRange(k, perm))
     [] Names[i] = "block" -> BlockRange(k, perm)
     [] OTHER -> LET v == Value(Names[i], k) IN <<v, v>>]
Emit(tag, keys) == LET k == TLCEval(keys) IN <<tag, k, <<>>, TLCEval(Bounds(k, FastStablePerm(k)))>>
Exhaustive ==
  UNION {{Emit(0, w) : w \in {v \in WeakOrders(n) : (n + v[1] * 3 + v[n] * 5 + v[(n \div 2) + 1] * 7) % NShards = Shard}} : n \in 2..ExhaustiveN}
  \cup (IF Shard = 0 THEN {Emit(0, <<>>), Emit(0, <<1>>)} ELSE {})
(* the arrangements that reach the maxima                                  *)
Zigzag(n) == [i \in 1..n |-> IF i % 2 = 1 THEN (n \div 2) + ((i + 1) \div 2) ELSE (n \div 2) + 1 - (i \div 2)]
Oscillate(n) == [i \in 1..n |-> IF i % 2 = 1 THEN ((i + 1) \div 2) ELSE n + 1 - (i \div 2)]
PatternItems ==
  LET K == Len(SizePlan) * (NFamilies + 2) * 4
      Items == {x \in 0..(K - 1) : LET n == SizePlan[(x \div ((NFamilies + 2) * 4)) + 1] IN x % 4 < Repeat(n) /\ (x \div 4) % NShards = Shard}
  IN [x \in Items |->
        LET n == SizePlan[(x \div ((NFamilies + 2) * 4)) + 1]
            f == ((x \div 4) % (NFamilies + 2)) + 1
            s == Seed * 61 + (x % 4) * 1009 + n
        IN Emit(f, IF f = NFamilies + 1 THEN Zigzag(n) ELSE IF f = NFamilies + 2 THEN Oscillate(n) ELSE Pattern(f, n, s))]
Maxima == IF Shard = 0 THEN {<<"max", <<n>>, <<>>, [i \in 1..Len(Names) |-> MaxForSize(Names[i], n)]>> : n \in 0..150} ELSE {}
All == LET P == PatternItems IN SetToSeq0(Exhaustive) \o SetToSeq0({P[x] : x \in DOMAIN P}) \o SetToSeq0(Maxima)
ASSUME ndJsonSerialize(Env("VP_OUT", "/dev/null"), All)
VARIABLE done
Init == done = FALSE
Next == done' = TRUE
==============================================================================
