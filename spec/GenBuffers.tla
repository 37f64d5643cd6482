----------------------------- MODULE GenBuffers ------------------------------
(***************************************************************************)
(* Collections and buffer sizes for the buffered sorters.  The outcome of  *)
(* a line <<tag, keys, perm, sizes>> is required for every size listed.    *)
(* In-place block merges live from distinct values: the arrangements have  *)
(* few of them, or hide them in one part, around every number at which a   *)
(* block merge changes its mind (roots and powers of two of the length).   *)
(* Lines <<"fact", n, half, sqrt, log>> give sizes of buffers.              *)
(* Environment: VP_OUT, VP_SEED, VP_SHARD, VP_NSHARDS, VP_PLAN.            *)
(***************************************************************************)
EXTENDS Orders, Patterns, Providers, Json, IOUtils
Env(name, default) == IF name \in DOMAIN IOEnv THEN IOEnv[name] ELSE default
Seed    == atoi(Env("VP_SEED", "1")) % 30000
Shard   == atoi(Env("VP_SHARD", "0"))
NShards == atoi(Env("VP_NSHARDS", "1"))
Plan    == Env("VP_PLAN", "quick")
Dense(a, b) == [k \in 1..(b - a + 1) |-> a + k - 1]
Sizes == CASE Plan = "trace" -> Dense(2, 40) \o <<48, 60, 64, 65, 80, 100, 129>>
           [] Plan = "thorough" -> Dense(4, 420) \o <<450, 500, 511, 512, 513, 550, 600, 700, 800, 900, 1000, 1023, 1024, 1025, 1100, 1200, 1300, 1500, 1700, 2000, 2047, 2048, 2049,
                  2100, 2300, 2600, 3000, 3500, 4000, 4096, 4097, 4500, 5000, 6000, 7000, 8000>>
           [] OTHER -> Dense(4, 130) \o <<135, 140, 150, 160, 175, 190, 200, 220, 240, 255, 256, 257, 258, 270, 300, 330, 360, 400, 450, 511, 512, 513, 514, 530, 600, 700, 800, 1000, 1023, 1024, 1025,
                  1100, 1300, 1600, 2000, 2047, 2048, 2049, 2100, 2500, 3000, 4000, 4096, 4097>>
Draws == CASE Plan = "trace" -> 2 [] Plan = "thorough" -> 24 [] OTHER -> 9
RECURSIVE RootPow2(_, _)
RootPow2(n, b) == IF b * b >= n THEN b ELSE RootPow2(n, 2 * b)
(* numbers of distinct values around which something changes for length n  *)
Counts(n) == LET q == SqrtOf(n)  b == RootPow2(n, 4)  k == (n - 1) \div b + 1 IN
  <<1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, b - 1, b, b + 1, k, k + 1, k + b - 1, k + b, k + b + 1, q, q + 1, q + 2, 2 * q - 1, 2 * q, 2 * q + 1, 2 * q + 2, 2 * q + 3,
    SqrtOf(n \div 2) + 1, 2 * SqrtOf(n \div 2) + 2, 2 * SqrtOf(n \div 4) + 1, n \div 3 + 1, n \div 2 + 1, n>>
BufferSizes(n) == LET q == SqrtOf(n)  b == RootPow2(n, 4) IN
  <<1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, q - 1, q, q + 1, b - 1, b, b + 1, 2 * b, n \div 8, n \div 8 + 1, n \div 4 - 1, n \div 4, n \div 4 + 1, n \div 4 + 4, n \div 2 - 1, n \div 2, n \div 2 + 1,
    n - 1, n, n + 1, n + 4, 2 * n, 4 * n + 4>>
Distinct(n, d) == IF d < 1 THEN 1 ELSE IF d > n THEN n ELSE d
NLayouts == 13
Layout(f, n, d, s) ==
  LET h == n \div 2  t == 1 + (Mix(s, 5) % n) IN
  CASE f = 1 -> [k \in 1..n |-> Rnd(s, k, d)]
    [] f = 2 -> [k \in 1..n |-> k % d]
    [] f = 3 -> [k \in 1..n |-> (k * d) \div (n + 1)]
    [] f = 4 -> [k \in 1..n |-> ((n - k) * d) \div (n + 1)]
    [] f = 5 -> [k \in 1..n |-> IF k <= h THEN (k * d) \div (h + 1) ELSE ((k - h) * d) \div (n - h + 1)]
    [] f = 6 -> [k \in 1..n |-> IF k <= d THEN Rnd(s, k, n + 1) ELSE h]                      \* the distinct values first
    [] f = 7 -> [k \in 1..n |-> IF k > n - d THEN Rnd(s, k, n + 1) ELSE h]                   \* last
    [] f = 8 -> [k \in 1..n |-> IF k >= t /\ k < t + d THEN k * 3 ELSE Rnd(s, k, 3) * n]     \* somewhere
    [] f = 9 -> [k \in 1..n |-> LET b == (k - 1) \div d IN Rnd(s, b, 5) + (IF b % 2 = 0 THEN (k % d) ELSE d - (k % d))]
    [] f = 10 -> [k \in 1..n |-> IF k <= h THEN d - Rnd(s, k, d) \div 2 ELSE Rnd(s, k, d) \div 2]    \* the halves hardly overlap
    [] f = 11 -> [k \in 1..n |-> IF Mix(s, k) % 8 = 0 THEN Rnd(s, k, d) ELSE d \div 2]
    [] f = 12 -> [k \in 1..n |-> (BitRev(k, 12, 0) * d) \div 4096]
    [] OTHER -> [k \in 1..n |-> IF k <= t THEN (k * d) \div (t + 1) ELSE d - ((k - t) * d) \div (n - t + 1)]
Line(x) ==      \* x = index of the size * Draws + draw
  LET n == Sizes[(x \div Draws) + 1]
      s == Seed * 67 + x * 31 + 7
      cs == Counts(n)  bs == BufferSizes(n)
      d == Distinct(n, cs[1 + (Mix(s, 1) % Len(cs))])
      f == 1 + ((x + (Mix(s, 2) % 3)) % NLayouts)
      k == TLCEval(Layout(f, n, d, s))
      some == {0} \cup {LET b == bs[1 + (Mix(s, 10 + r) % Len(bs))] IN IF b < 0 THEN 0 ELSE b : r \in 1..(IF Plan = "trace" THEN 3 ELSE 6)}
  IN <<f, k, FastStablePerm(k), SetToSeq0(some)>>
Small == UNION {{<<0, w, FastStablePerm(w), <<0, 1, 2, 3, n, n + 1, 4 * n + 4>>>> : w \in {v \in WeakOrders(n) : ((v[1] + n) % NShards) = Shard}} : n \in 1..(IF Plan = "trace" THEN 1 ELSE IF Plan = "thorough" THEN 6 ELSE 5)}
  \cup (IF Shard = 0 THEN {<<0, <<>>, <<>>, <<0, 1, 5>>>>} ELSE {})
Binary == IF Plan = "trace" THEN {} ELSE
  LET m == IF Plan = "thorough" THEN 12 ELSE 9 IN {<<100, w, FastStablePerm(w), <<0, 1, 2, 3, 4, 5, m, 4 * m>>>> : w \in {v \in [1..m -> 0..1] : (v[1] + 2 * v[m] + v[m \div 2]) % NShards = Shard}}
Patterned == {LET n == Sizes[(x \div 4) + 1]  s == Seed * 61 + x * 17  bs == BufferSizes(n)  k == TLCEval(Pattern(1 + (Mix(s, 3) % NFamilies), n, s)) IN
                <<200, k, FastStablePerm(k), SetToSeq0({0} \cup {LET b == bs[1 + (Mix(s, 10 + r) % Len(bs))] IN IF b < 0 THEN 0 ELSE b : r \in 1..5})>>
              : x \in {y \in 0..(4 * Len(Sizes) - 1) : y % NShards = Shard /\ (Plan # "trace" \/ y % 4 = 0)}}
FactN == (1..2100) \cup UNION {{2 ^ k - 1, 2 ^ k, 2 ^ k + 1} : k \in 1..20} \cup UNION {{k * k - 1, k * k, k * k + 1} : k \in 2..1000}
         \cup UNION {{LnFrom[k] - 1, LnFrom[k], LnFrom[k] + 1} : k \in 2..14} \cup {10 ^ k : k \in 1..6}
ASSUME \A m \in FactN : SqrtRight(m)
Facts == IF Plan = "trace" \/ Shard # 0 THEN {} ELSE {<<"fact", m, HalfOf(m), SqrtOf(m), LogOf(m)>> : m \in FactN} \cup {<<"fact", 0, 0, 0, 0>>}
Lines == {Line(x) : x \in {y \in 0..(Draws * Len(Sizes) - 1) : y % NShards = Shard}}
ASSUME ndJsonSerialize(Env("VP_OUT", "/dev/null"), SetToSeq0(Small) \o SetToSeq0(Binary) \o SetToSeq0(Lines) \o SetToSeq0(Patterned) \o SetToSeq0(Facts))
VARIABLE done
Init == done = TRUE
Next == UNCHANGED done
==============================================================================
