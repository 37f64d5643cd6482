------------------------------ MODULE GenKeys -------------------------------
(***************************************************************************)
(* Pools of values of every key type, in strictly ascending order: extreme *)
(* values, every byte position, clusters of consecutive values, both zeros *)
(* and the infinities, prefixes, embedded nulls, long common prefixes.     *)
(* Lines <<type name, pool name, values>>.                                 *)
(* Environment: VP_OUT, VP_SEED, VP_SHARD, VP_NSHARDS.                      *)
(***************************************************************************)
EXTENDS Keys, Patterns, Json, IOUtils
Env0(name, default) == IF name \in DOMAIN IOEnv THEN IOEnv[name] ELSE default
Seed    == atoi(Env0("VP_SEED", "1")) % 30000
Shard   == atoi(Env0("VP_SHARD", "0"))
NShards == atoi(Env0("VP_NSHARDS", "1"))
Deep    == Env0("VP_PLAN", "quick") = "thorough"

S1 == <<"s", 1>>  U1 == <<"u", 1>>  S4 == <<"s", 4>>  U2 == <<"u", 2>>  S8 == <<"s", 8>>  F4 == <<"f", 4>>  F8 == <<"f", 8>>
Str == <<"str">>  Bool == <<"bool">>

Fill(w, top, rest) == [i \in 1..w |-> IF i = 1 THEN top ELSE rest]
Bases(w) == {Fill(w, 0, 0), Fill(w, 255, 255), Fill(w, 128, 0), Fill(w, 127, 255), Fill(w, 85, 170)}
Touch == {0, 1, 2, 127, 128, 254, 255}
(* every byte position takes the critical byte values, over several backgrounds *)
Bounds(w) == UNION {{[b EXCEPT ![p] = v] : p \in 1..w, v \in Touch} : b \in Bases(w)}
Random(w, n, s) == {[i \in 1..w |-> Rnd(Seed + s, k * 31 + i, 256)] : k \in 1..n}
(* consecutive bit patterns from a base                                     *)
RECURSIVE AddTo(_, _, _)
AddTo(a, k, p) == IF k = 0 \/ p = 0 THEN a ELSE LET x == a[p] + k IN AddTo([a EXCEPT ![p] = x % 256], x \div 256, p - 1)
Cluster(base, n, step) == {AddTo(base, k * step, Len(base)) : k \in 0..(n - 1)}
(* groups of values far from each other: one bucket per group               *)
Groups(w) == Cluster(Fill(w, 0, 0), 60, 1) \cup Cluster(Fill(w, 127, 0), 60, 3) \cup Cluster(Fill(w, 128, 0), 60, 1) \cup Cluster(Fill(w, 200, 7), 60, 7)
IntPools(t, w) ==
  IF w = 1 THEN {<<"bounds", {<<b>> : b \in 0..255}>>, <<"low", {<<b>> : b \in 0..30}>>, <<"high", {<<b>> : b \in 225..255}>>}
  ELSE {<<"bounds", Bounds(w) \cup Random(w, IF Deep THEN 400 ELSE 60, w)>>, <<"groups", Groups(w)>>}
       \cup {<<"low", Cluster(Fill(w, 0, 0), 120, 1)>>}
       \cup {<<"min", Cluster(Fill(w, 128, 0), 150, 1)>>, <<"max", {AddTo([Fill(w, 127, 255) EXCEPT ![w] = 0], k, w) : k \in 100..255}>>,
             <<"umax", {[Fill(w, 255, 255) EXCEPT ![w] = k] : k \in 100..255}>>,
             <<"across", IF t[1] = "s" THEN {[Fill(w, 255, 255) EXCEPT ![w] = k] : k \in 180..255} \cup Cluster(Fill(w, 0, 0), 76, 1)
                                       ELSE {[Fill(w, 127, 255) EXCEPT ![w] = k] : k \in 180..255} \cup Cluster(Fill(w, 128, 0), 76, 1)>>}
(* IEC 559: sign, exponent and mantissa at their limits                     *)
One(w) == IF w = 4 THEN <<63, 128, 0, 0>> ELSE <<63, 240, 0, 0, 0, 0, 0, 0>>
Inf(w) == IF w = 4 THEN <<127, 128, 0, 0>> ELSE <<127, 240, 0, 0, 0, 0, 0, 0>>
Minus(a) == [a EXCEPT ![1] = @ + 128]
NoNaN(S) == {a \in S : ~IsNaN(a)}
NoMinusZero(S) == {a \in S : ~(IsZero(a) /\ Neg(a))}      \* the driver puts negative zeros back
FloatPools(w) ==
  LET Z == Fill(w, 0, 0)
      pm(S) == S \cup {Minus(a) : a \in S}
      top == AddTo(Inf(w), 0, w)
      below == {[a EXCEPT ![w] = k] : a \in {IF w = 4 THEN <<127, 127, 255, 255>> ELSE <<127, 239, 255, 255, 255, 255, 255, 255>>}, k \in 0..255} IN
  {<<"bounds", NoNaN(Bounds(w) \cup Random(w, IF Deep THEN 400 ELSE 80, w)) \cup pm({Inf(w), One(w)})>>,
   <<"posone", Cluster(One(w), 200, 1)>>, <<"negone", Cluster(Minus(One(w)), 200, 1)>>,
   <<"negbig", Cluster(Minus(AddTo(One(w), 12345, w)), 200, 7)>>,
   <<"denorm", pm(Cluster(Z, 150, 1))>>, <<"negdenorm", {Minus(a) : a \in Cluster(Z, 200, 1)}>>,
   <<"negonly", NoNaN({Minus(a) : a \in {x \in Bounds(w) : ~Neg(x)}})>>, <<"posonly", NoNaN({x \in Bounds(w) : ~Neg(x)})>>,
   <<"huge", pm({top} \cup below)>>,
   <<"groups", NoNaN(pm(Cluster(One(w), 50, 1) \cup Cluster(Fill(w, 10, 0), 50, 3) \cup Cluster(Fill(w, 100, 9), 50, 5)))>>,
   <<"neggroups", NoNaN({Minus(a) : a \in Cluster(One(w), 50, 1) \cup Cluster(Fill(w, 10, 0), 50, 3) \cup Cluster(Fill(w, 100, 9), 50, 5)})>>}

Rep(n, c) == [i \in 1..n |-> c]
SeqUpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
Chars == {0, 1, 97, 127, 128, 255}
StrPools ==
  {<<"bounds", SeqUpTo(Chars, 3)>>,
   <<"prefixes", {Rep(n, 97) : n \in 0..140}>>,
   <<"nulls", {Rep(n, 0) : n \in 0..70} \cup {Append(Rep(n, 0), 1) : n \in 0..70}>>,
   <<"long", {Rep(n, 97) \o s : n \in {3, 63, 64, 65, 130, 200}, s \in SeqUpTo({0, 98, 255}, 2)}>>,
   <<"tail", {Rep(300, 200) \o s : s \in SeqUpTo({0, 98, 200, 255}, 3)}>>,
   <<"step", UNION {{Rep(64, 97) \o Rep(k, 98) \o <<x>> : x \in {97, 99, 255}} : k \in 0..80}>>,
   <<"bytes", {<<x>> : x \in 0..255} \cup {<<97, x>> : x \in 0..255}>>}
Scal(t) == CASE t = <<"bool">> -> {<<0>>, <<1>>}
             [] t = <<"str">> -> SeqUpTo({0, 97, 255}, 2) \cup {Rep(70, 97), Rep(71, 97)}
             [] t[1] = "f" -> NoMinusZero(NoNaN(UNION {{[b EXCEPT ![1] = v] : v \in {0, 63, 127, 128, 191, 255}} : b \in {Fill(t[2], 0, 0), One(t[2])}}))
             [] OTHER -> {Fill(t[2], a, b) : a \in {0, 1, 127, 128, 255}, b \in {0, 127, 255}}
Few(t) == CASE t = <<"bool">> -> {<<0>>, <<1>>}
            [] t = <<"str">> -> {<<>>, <<0>>, <<97, 128>>, <<255>>}
            [] t[1] = "f" -> {Fill(t[2], 0, 0), One(t[2]), Minus(One(t[2]))}
            [] t = <<"prod", Bool, Str>> -> {<<<<0>>, <<>>>>, <<<<0>>, <<97>>>>, <<<<1>>, <<97>>>>, <<<<1>>, <<>>>>, <<<<0>>, <<97, 200>>>>}
            [] t[1] = "prod" -> {<<x, y>> : x \in {Fill(t[2][2], 0, 0), Fill(t[2][2], 200, 1)}, y \in {Fill(t[3][2], 1, 0), Fill(t[3][2], 255, 255), Fill(t[3][2], 0, 9)}}
            [] t[1] = "vec" -> SeqUpTo({Fill(t[2][2], 0, 0), Fill(t[2][2], 200, 1)}, 2)
            [] OTHER -> {Fill(t[2], 0, 0), Fill(t[2], 0, 1), Fill(t[2], 127, 5), Fill(t[2], 128, 0), Fill(t[2], 255, 255)}
Scalar(t) == t[1] \notin {"prod", "vec"}
(* equal up to depth k, for sequences longer than the recursion limit (16)  *)
DeepSeqs(t) == LET F == Few(t)  a == CHOOSE x \in F : TRUE IN
               {[i \in 1..(n + 1) |-> IF i = n + 1 THEN x ELSE a] : n \in {0, 1, 2, 15, 16, 17, 18, 40}, x \in F}
               \cup {[i \in 1..n |-> a] : n \in {0, 15, 16, 17, 40}}
               \cup {[i \in 1..(2 * n) |-> IF i % 2 = 0 /\ i # 2 * n THEN a ELSE x] : n \in {1, 2, 8, 9, 17, 18}, x \in F}
Thin(S, m) == IF Cardinality(S) <= m THEN S ELSE LET q == SetAsSeq(S) IN {q[1 + ((k * Len(q)) \div m)] : k \in 0..(m - 1)}
ProdPool(t) == IF Len(t) = 3 THEN {<<x, y>> : x \in (IF Scalar(t[2]) THEN Scal(t[2]) ELSE Few(t[2])), y \in (IF Scalar(t[3]) THEN Scal(t[3]) ELSE Few(t[3]))}
               ELSE {<<x, y, z>> : x \in Few(t[2]), y \in Few(t[3]), z \in Few(t[4])}
Pools(t) ==
  CASE t = <<"bool">> -> {<<"bounds", {<<0>>, <<1>>}>>}
    [] t[1] \in {"u", "s"} -> IntPools(t, t[2])
    [] t[1] = "f" -> {<<p[1], NoMinusZero(p[2])>> : p \in FloatPools(t[2])}
    [] t[1] = "str" -> StrPools
    [] t[1] = "prod" -> {<<"bounds", Thin(ProdPool(t), 400)>>}
    [] OTHER -> {<<"short", Thin(SeqUpTo(Few(t[2]), 3), 300)>>, <<"deep", DeepSeqs(t[2])>>}
TypeTable ==
  << <<"u1", U1>>, <<"s1", S1>>, <<"u2", U2>>, <<"s2", <<"s", 2>>>>, <<"u4", <<"u", 4>>>>, <<"s4", S4>>, <<"u8", <<"u", 8>>>>, <<"s8", S8>>,
     <<"u16", <<"u", 16>>>>, <<"s16", <<"s", 16>>>>, <<"bool", Bool>>, <<"f4", F4>>, <<"f8", F8>>, <<"str", Str>>,
     <<"pair_s1_u2", <<"prod", S1, U2>>>>, <<"pair_bool_f8", <<"prod", Bool, F8>>>>, <<"pair_f8_s4", <<"prod", F8, S4>>>>, <<"pair_str_s4", <<"prod", Str, S4>>>>, <<"pair_s4_str", <<"prod", S4, Str>>>>,
     <<"pair_str_str", <<"prod", Str, Str>>>>, <<"tup_s1_str_f4", <<"prod", S1, Str, F4>>>>, <<"tup_bool_bool_s8", <<"prod", Bool, Bool, S8>>>>, <<"vec_pair_f4_u2", <<"vec", <<"prod", F4, U2>>>>>>,
     <<"tup_u2_pair_bool", <<"prod", U2, <<"prod", S1, U2>>, Bool>>>>, <<"tup_vec_s4_str", <<"prod", <<"vec", S1>>, S4, Str>>>>,
     <<"vec_s1", <<"vec", S1>>>>, <<"vec_u2", <<"vec", U2>>>>, <<"vec_s4", <<"vec", S4>>>>, <<"vec_f8", <<"vec", F8>>>>, <<"vec_bool", <<"vec", Bool>>>>,
     <<"vec_str", <<"vec", Str>>>>, <<"vec_pair_s1_u2", <<"vec", <<"prod", S1, U2>>>>>>, <<"vec_vec_s4", <<"vec", <<"vec", S4>>>>>>,
     <<"tup_s4_s4_s4", <<"prod", S4, S4, S4>>>>, <<"vec_tup", <<"vec", <<"prod", Bool, Str>>>>>>, <<"pair_vec_s1_str", <<"prod", <<"vec", S1>>, Str>>>> >>
Mine == {k \in 1..Len(TypeTable) : k % NShards = Shard}
Line(name, t, p) == LET S == p[2]  R == TLCEval(Ranked(t, S)) IN
                    IF StrictlyRanked(R) THEN <<name, p[1], SetAsSeq(R)>> ELSE Assert(FALSE, <<"pool is not strictly ordered", name, p[1]>>)
ASSUME ndJsonSerialize(Env0("VP_OUT", "/dev/null"), SetAsSeq(UNION {{Line(TypeTable[k][1], TypeTable[k][2], p) : p \in Pools(TypeTable[k][2])} : k \in Mine}))
VARIABLE done
Init == done = FALSE
Next == done' = TRUE
=============================================================================
