---------------------------- MODULE GenComparators ----------------------------
(* Vectors for the comparators:                                              *)
(*  <<"fp", <<>>, <<>>, values, total, weak, partial>>   matrices, row major *)
(*  <<"int", <<>>, <<>>, n, less>>                                           *)
(*  <<"natural" | "case", <<>>, <<>>, strings, ranks>>                       *)
(*  <<"adapt", <<chain index>>, <<>>, predicate, projection, result>>         *)
EXTENDS Comparators, Patterns, Json, IOUtils
LOCAL INSTANCE SequencesExt
Env(name, default) == IF name \in DOMAIN IOEnv THEN IOEnv[name] ELSE default
Seed    == atoi(Env("VP_SEED", "1")) % 30000
Shard   == atoi(Env("VP_SHARD", "0"))
NShards == atoi(Env("VP_NSHARDS", "1"))
Deep    == Env("VP_PLAN", "quick") = "thorough"
B(x) == IF x THEN 1 ELSE 0
Matrix(q, L(_, _)) == FlattenSeq([i \in 1..Len(q) |-> TLCEval([j \in 1..Len(q) |-> B(L(q[i], q[j]))])])
FpSeq == SetToSeq(FpValues(12))
FpVec == <<"fp", <<>>, <<>>, FpSeq, Matrix(FpSeq, TotalLessFp), Matrix(FpSeq, WeakLessFp), Matrix(FpSeq, PartialLessFp)>>
IntVec == <<"int", <<>>, <<>>, 9, Matrix([i \in 1..9 |-> i], LAMBDA a, b : a < b)>>

StringsUpTo(A, n) == UNION {[1..l -> A] : l \in 0..n}
(* strings made of runs of zeros, digits and letters                          *)
Piece(s, i) ==
  LET k == Rnd(s, i, 7) len == 1 + Rnd(s + 7, i, 4) IN
  CASE k \in {0, 1} -> [j \in 1..len |-> 48]
    [] k = 2 -> [j \in 1..(len * (1 + Rnd(s, i + 3, 7))) |-> 48 + Rnd(s, i * 31 + j, 10)]
    [] k = 3 -> [j \in 1..len |-> 48 + Rnd(s, i * 31 + j, 2)]
    [] k = 4 -> <<47>> [] k = 5 -> <<58>>
    [] OTHER -> <<97 + Rnd(s, i, 2)>>
Mixed(s) == LET n == 1 + Rnd(s, 1, 5) IN FlattenSeq([i \in 1..n |-> Piece(s, i)])
Base(s) == Mixed(s \div 4)        \* groups of four strings with a common beginning
Grouped(s) == Base(s) \o Piece(s + 5003, 1) \o Piece(s + 6007, 2)
CaseChar(x) == <<65, 97, 90, 122, 91, 96, 64, 123, 48, 32, 77, 109>>[1 + (x % 12)]
CaseStr(s) == [j \in 1..(1 + Rnd(s \div 3, 1, 12)) |-> CaseChar(Rnd(IF j < 4 THEN s \div 3 ELSE s, j, 12) + (IF Rnd(s, j + 50, 4) = 0 THEN 1 ELSE 0))]
StringVec(tag, set, Key(_)) == LET q == SetToSeq(set) IN <<tag, <<>>, <<>>, q, Ranks(TLCEval([i \in 1..Len(q) |-> Key(q[i])]))>>
K == IF Deep THEN 12 ELSE 3
Naturals == <<StringVec("natural", StringsUpTo({47, 48, 49, 57, 97}, 3), NaturalKey),
              StringVec("natural", StringsUpTo({48, 49, 97}, IF Deep THEN 5 ELSE 4), NaturalKey)>>
            \o [g \in 1..K |-> StringVec("natural", {Grouped(Seed * 977 + g * 4001 + i) : i \in 1..200}, NaturalKey)]
Cases == <<StringVec("case", StringsUpTo({65, 97, 90, 122, 91, 48}, 3), CaseKey)>>
            \o [g \in 1..K |-> StringVec("case", {CaseStr(Seed * 977 + g * 4001 + i) : i \in 1..200}, CaseKey)]

Chains == SetToSeq(UNION {[1..l -> 1..3] : l \in 1..3})
Code(c) == IF Len(c) = 0 THEN 0 ELSE IF Len(c) = 1 THEN c[1] ELSE IF Len(c) = 2 THEN c[1] * 10 + c[2] ELSE c[1] * 100 + c[2] * 10 + c[3]
Flat(p, m) == [i \in 1..(m * m) |-> B(<<((i - 1) \div m) + 1, ((i - 1) % m) + 1>> \in p)]
Preds == SUBSET ((1..2) \X (1..2))
Pred3(s) == {x \in (1..3) \X (1..3) : Rnd(s, x[1] * 5 + x[2], 2) = 1}
Adapts ==
  LET two == {<<"adapt", <<Code(Chains[i])>>, <<>>, Flat(p, 2), f, Flat(Chain(Chains[i], p, 2, f), 2)>>
               : i \in 1..Len(Chains), p \in Preds, f \in [1..2 -> 1..2]}
      three == {<<"adapt", <<Code(Chains[i])>>, <<>>, Flat(Pred3(s), 3), f, Flat(Chain(Chains[i], Pred3(s), 3, f), 3)>>
               : i \in 1..Len(Chains), s \in {Seed + j : j \in 1..(IF Deep THEN 60 ELSE 8)}, f \in {<<2, 3, 1>>, <<3, 3, 1>>, <<1, 2, 3>>}}
  IN SetToSeq(two \cup three)
All == CASE Shard = 0 -> <<FpVec, IntVec>> \o Cases [] Shard = 1 -> Naturals [] OTHER -> Adapts
ASSUME ndJsonSerialize(Env("VP_OUT", "/dev/null"), All)
VARIABLE done
Init == done = FALSE
Next == done' = TRUE
===============================================================================
