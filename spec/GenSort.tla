------------------------------ MODULE GenSort -------------------------------
(***************************************************************************)
(* Generates replay vectors <<tag, keys, perm>>: the keys of a collection  *)
(* and its one stable outcome (1-based original positions).                *)
(* Environment: VP_OUT, VP_SEED, VP_SHARD, VP_NSHARDS, VP_PLAN.            *)
(***************************************************************************)
EXTENDS Orders, Patterns, Cost, Json, IOUtils

Env(name, default) == IF name \in DOMAIN IOEnv THEN IOEnv[name] ELSE default
Seed    == atoi(Env("VP_SEED", "1")) % 30000
Shard   == atoi(Env("VP_SHARD", "0"))
NShards == atoi(Env("VP_NSHARDS", "1"))
Plan    == Env("VP_PLAN", "quick")

(* All weak orders of up to `ExhaustiveN' elements: within it, every input *)
(* a comparison-based algorithm can tell apart.                            *)
ExhaustiveN == CASE Plan = "quick" -> 6 [] Plan = "small" -> 5 [] Plan = "mid" -> 6 [] Plan \in {"trace", "faulttrace"} -> 2 [] Plan \in {"tiny", "heap", "calls"} -> 4 [] Plan = "net" -> 3 [] Plan \in {"big", "bigfault", "advtrace", "adv"} -> 1 [] Plan = "keys" -> 3 [] Plan = "keysdeep" -> 5 [] Plan \in {"keyshuge", "huge"} -> 1 [] Plan = "cost" -> 5 [] Plan = "costdeep" -> 7
                 [] Plan = "thorough" -> 7 [] OTHER -> 5

(* Sizes around the thresholds at which the algorithms change strategy,    *)
(* plus sizes drawn from the seed.                                         *)
Dense(a, b) == [i \in 1..(b - a + 1) |-> a + i - 1]
Drawn(k, lo, hi) == [i \in 1..k |-> lo + (Rnd(Seed, i + lo, 30011) % (hi - lo))]
SizePlan ==
  CASE Plan = "small" -> Dense(6, 40) \o <<48, 64, 65, 96, 128, 129, 200>>
    [] Plan = "mid"   -> Dense(6, 70) \o <<80, 81, 96, 100, 127, 128, 129, 150, 200, 255, 257, 300, 400, 513>>
                           \o Drawn(6, 70, 600)
    [] Plan = "quick" -> Dense(7, 72) \o <<75, 79, 80, 81, 85, 90, 95, 96, 97, 100, 105, 110, 115, 120, 126, 127, 128, 129, 130,
                            135, 140, 150, 160, 170, 180, 190, 191, 192, 193, 200, 220, 240, 255, 256, 257, 270, 300, 320, 350, 380,
                            400, 450, 500, 511, 512, 513, 514, 600, 700, 800, 1000, 1023, 1024, 1025, 1026, 1100, 1300, 1537,
                            2047, 2048, 2049, 2500, 3100, 4096, 4100>> \o Drawn(16, 70, 1200)
    [] Plan = "thorough" -> Dense(8, 300) \o <<320, 350, 380, 400, 450, 500, 511, 512, 513, 514, 600, 700, 800, 900, 1000, 1023, 1024, 1025,
                            1026, 1100, 1300, 1500, 1537, 1800, 2047, 2048, 2049, 2500, 3000, 3100, 3500, 4000, 4095, 4096, 4097, 4100, 5000,
                            6000, 7000, 8000, 8191>> \o Drawn(60, 70, 3000)
    [] Plan = "trace" -> Dense(4, 16) [] Plan = "faulttrace" -> <<4, 5, 8, 12, 16>>
    [] Plan = "heap" -> Dense(5, 20) \o <<32, 33, 64, 65, 81, 100, 130, 257, 300, 513, 700, 1100, 2100>>
    [] Plan = "net" -> Dense(4, 64)
    [] Plan = "big" -> <<1025, 1100, 1537, 2049, 2200, 3100, 4200>> \o Drawn(2, 700, 5000)
    [] Plan = "bigfault" -> <<40, 56, 72, 90, 130, 200, 300>>
    [] Plan = "tiny" -> Dense(5, 24) \o <<32, 33, 40, 48, 65>>
    [] Plan = "cost" -> <<12, 20, 33, 50, 64, 65, 100, 129, 200, 257, 300, 400, 513, 700, 1025, 1500, 2049, 3000, 4097, 6000>>
    [] Plan = "costdeep" -> Dense(7, 90) \o <<100, 129, 200, 257, 300, 400, 513, 600, 700, 850, 1025, 1300, 1500, 1800, 2049, 2500, 3000, 3500, 4097, 5000, 6000, 7000, 8191>>
    [] Plan = "keys" -> <<20, 100, 126, 127, 128, 129, 130, 150, 200, 256, 300, 400, 600, 999, 1000, 1001, 1023, 1024, 1025, 1300, 2049, 3000, 5000, 9000, 13000>>
    [] Plan = "keysdeep" -> <<20, 64, 100, 110, 120>> \o Dense(124, 136) \o <<150, 175, 200, 230, 256, 257, 300, 350, 400, 500, 600, 700, 850, 998, 999, 1000, 1001, 1002, 1022, 1023, 1024, 1025, 1026,
                            1100, 1300, 1700, 2047, 2048, 2049, 2500, 3000, 4096, 4097, 5000, 7000, 8193, 9000, 11000, 13000, 20000, 30000>>
    [] Plan \in {"keyshuge", "huge"} -> <<70000>> [] Plan = "calls" -> <<5, 8, 11, 16>>
    [] Plan \in {"advtrace", "adv"} -> <<>>
    [] OTHER -> Dense(6, 20)
(* Keep one item in Thin.                                                  *)
Thin == CASE Plan = "trace" -> 7 [] Plan = "calls" -> 4 [] Plan = "faulttrace" -> 17 [] Plan = "tiny" -> 5 [] Plan = "heap" -> 6 [] Plan = "net" -> 13 [] Plan = "bigfault" -> 9 [] Plan = "keys" -> 3 [] Plan = "keyshuge" -> 14 [] Plan = "huge" -> 15 [] OTHER -> 1
(* Several seeds for the small sizes, where they are cheap.                *)
Repeat(n) == IF Plan = "thorough" THEN (IF n <= 40 THEN 6 ELSE IF n <= 300 THEN 3 ELSE 1)
             ELSE IF n <= 24 THEN 3 ELSE IF n <= 72 THEN 2 ELSE 1

CostPlan == Plan \in {"cost", "costdeep"}
Emit(tag, keys) == LET k == TLCEval(keys) IN
  IF CostPlan THEN <<tag, k, FastStablePerm(k), Budgets(k)>> ELSE <<tag, k, FastStablePerm(k)>>
(* Sizes at which the adversary of module Adversary plays.                 *)
AdvSizes == IF Plan = "cost" THEN (2..70) \cup {100, 128, 129, 200, 256, 300, 400, 513, 600, 800, 1000, 1025, 1500, 2048, 3000, 4096, 6000, 9000}
            ELSE IF Plan = "costdeep" THEN (2..300) \cup {400, 513, 600, 800, 1000, 1025, 1500, 2048, 3000, 4096, 6000, 9000, 15000, 30000}
            ELSE IF Plan = "advtrace" THEN 2..24
            ELSE IF Plan = "adv" THEN (2..130) \cup {200, 256, 300, 400, 513, 600, 800, 1025, 1500, 2049, 4097} ELSE {}
Adversarial == IF Shard = 0 THEN {<<"adv", <<m>>, <<1>>, IF Plan = "adv" THEN [k \in 1..4 |-> 2 ^ 30] ELSE BudgetsFor(m)>> : m \in AdvSizes} ELSE {}

(* Compound shapes: what would sort one arrangement, one arrangement seen   *)
(* through another, three arrangements side by side.                       *)
AnyOf(s) == 1 + (Mix(s, 7) % NFamilies)
Thirds(n) == <<n \div 3, (2 * n) \div 3, n>>
NShapes == NFamilies + 3
Shape(f, n, s) ==
  CASE f <= NFamilies -> Pattern(f, n, s)
    [] f = NFamilies + 1 -> FastStablePerm(TLCEval(Pattern(AnyOf(s), n, s)))
    [] f = NFamilies + 2 -> LET a == TLCEval(Pattern(AnyOf(s), n, s))  b == FastStablePerm(TLCEval(Pattern(AnyOf(s + 77), n, s + 1))) IN [i \in 1..n |-> a[b[i]]]
    [] OTHER -> LET c == Thirds(n)
                    a == [k \in 1..3 |-> LET m == c[k] - (IF k = 1 THEN 0 ELSE c[k - 1]) IN TLCEval(IF m = 0 THEN <<>> ELSE Pattern(AnyOf(s + k), m, s + k))]
                IN a[1] \o a[2] \o a[3]
Times(f, n) == IF f > NFamilies /\ n <= 700 THEN Max2(3, Repeat(n)) ELSE Repeat(n)

PatternItems ==
  LET K == Len(SizePlan) * NShapes * 6
      Items == {x \in 0..(K - 1) :
                  LET n == SizePlan[((x \div (NShapes * 6))) + 1]
                      f == ((x \div 6) % NShapes) + 1 IN
                  x % 6 < Times(f, n) /\ ((x \div 6) + Seed) % Thin = 0 /\ (x \div 6) % NShards = Shard}
  IN [x \in Items |->
        LET n == SizePlan[(x \div (NShapes * 6)) + 1]
            f == ((x \div 6) % NShapes) + 1
            s == Seed * 61 + (x % 6) * 1009 + n
        IN Emit(f, TLCEval(Shape(f, n, s)))]

Exhaustive ==
  UNION {{Emit(0, w) : w \in {v \in WeakOrders(n) : (n + v[1] * 3 + v[n] * 5 + v[(n \div 2) + 1] * 7) % NShards = Shard}}
         : n \in 2..ExhaustiveN}
  \cup (IF Shard = 0 THEN {Emit(0, <<>>), Emit(0, <<1>>)} ELSE {})

(* All 0-1 sequences: together with monotonicity they decide oblivious     *)
(* algorithms, and they are the densest inputs in equivalent elements.     *)
BinaryN == IF Plan = "thorough" THEN 14 ELSE IF Plan = "quick" THEN 11 ELSE IF Plan \in {"trace", "tiny", "faulttrace", "heap", "net", "big", "bigfault", "cost", "advtrace", "adv", "keys", "keysdeep", "keyshuge", "huge", "calls"} THEN 0 ELSE 9
Binary == IF BinaryN > 0 /\ (BinaryN % NShards = Shard \/ NShards = 1) THEN {Emit(100, w) : w \in [1..BinaryN -> 0..1]} ELSE {}

All == LET P == PatternItems IN
       SetToSeq0(Exhaustive) \o SetToSeq0(Binary) \o SetToSeq0({P[x] : x \in DOMAIN P}) \o SetToSeq0(Adversarial)
ASSUME ndJsonSerialize(Env("VP_OUT", "/dev/null"), All)

VARIABLE done
Init == done = FALSE
Next == done' = TRUE
=============================================================================
