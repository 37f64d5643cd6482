---------------------------- MODULE GenAdapters -----------------------------
(* Terms, their documented traits, and for a sample of the calls they accept *)
(* every outcome: lines <<term, cat, always stable, calls>> with calls       *)
(* <<cat, src, n, cmp, proj, guaranteed stable, <<hit, once, ret>>...>>.      *)
(* Environment: VP_OUT, VP_SEED, VP_SHARD, VP_NSHARDS, VP_TERMS, VP_CALLS.    *)
EXTENDS Adapters, Patterns, Json, IOUtils, TLC
LOCAL INSTANCE SequencesExt
SetAsSeq(S) == SetToSeq(S)
Env0(name, default) == IF name \in DOMAIN IOEnv THEN IOEnv[name] ELSE default
Seed    == atoi(Env0("VP_SEED", "1")) % 30000
Shard   == atoi(Env0("VP_SHARD", "0"))
NShards == atoi(Env0("VP_NSHARDS", "1"))
NTerms  == atoi(Env0("VP_TERMS", "240"))
NCalls  == atoi(Env0("VP_CALLS", "8"))
Leaves == <<"f_u", "f_s", "b_u", "b_s", "r_u", "r_s", "r_n">>
Smalls == <<"sm_u", "sm_s">>
Adapt  == <<"counting", "drop_merge", "indirect", "out_of_place", "schwartz", "self_sort", "split", "stable", "verge", "make_stable", "stable_t">>
Pure   == <<"counting", "indirect", "out_of_place", "schwartz", "self_sort", "stable", "stable_t", "make_stable">>   \* all but those that sort parts
R(i, k) == Rnd(Seed, i, k) + 1
Leaf(i) == <<"leaf", Leaves[R(i, 7)]>>
Base(i) == IF R(i + 1, 4) = 1 THEN <<"small", Smalls[R(i, 2)]>> ELSE Leaf(i)
H(i) == LET s == R(i, 6) IN
        IF s <= 3 THEN <<"hybrid", Base(i + 11), Leaf(i + 12)>>
        ELSE IF s = 4 THEN <<"hybrid", Base(i + 13), Leaf(i + 14), Base(i + 15)>>
        ELSE IF s = 5 THEN <<"hybrid", Base(i + 16), <<"hybrid", Leaf(i + 17), Base(i + 18)>>, Leaf(i + 19)>>
        ELSE <<"hybrid", <<Adapt[R(i + 20, 11)], Leaf(i + 21)>>, Leaf(i + 22)>>
T(k) == LET i == (k * 37) + 5  s == R(i, 12) IN
        CASE s <= 2 -> H(i)
          [] s <= 5 -> <<Adapt[R(i + 2, 11)], H(i + 3)>>
          [] s <= 8 -> <<Adapt[R(i + 4, 11)], <<Adapt[R(i + 5, 11)], Leaf(i + 6)>>>>
          [] s <= 10 -> <<Adapt[R(i + 7, 11)], <<Pure[R(i + 8, 8)], H(i + 9)>>>>
          [] OTHER -> <<Adapt[R(i + 2, 11)], <<Adapt[R(i + 3, 11)], <<Adapt[R(i + 4, 11)], IF R(i + 1, 3) = 1 THEN H(i + 5) ELSE Leaf(i + 6)>>>>>>
One == {<<u, <<"leaf", l>>>> : u \in Unary, l \in {"f_u", "b_s", "r_u", "r_s"}}
       \cup {<<u, <<"hybrid", <<"leaf", "f_s">>, <<"leaf", "r_u">>>>>> : u \in Unary}
       \cup {<<u, <<"hybrid", <<"leaf", "b_u">>, <<"small", "sm_u">>, <<"leaf", "f_s">>, <<"leaf", "r_n">>>>>> : u \in Unary}
       \cup {<<u, <<"self_sort", <<"leaf", "r_u">>>>>> : u \in Unary}
(* These adapters say they can be called whatever they adapt: what they adapt *)
(* has to accept any comparison and projection.                              *)
Blind == {"verge", "drop_merge", "split", "out_of_place", "schwartz"}
AnyCall(cat) == [cat |-> cat, src |-> "iter", n |-> 5, cmp |-> "cmp", proj |-> "key"]
RECURSIVE Sensible(_)
Sensible(t) == \/ t[1] \in {"leaf", "small"}
               \/ /\ \A i \in 2..Len(t) : Sensible(t[i])
                  /\ t[1] \in Blind => Callable(t[2], AnyCall(2)) /\ (t[1] \in {"verge", "split"} => Callable(t[2], AnyCall(Cat(t))))
Terms == SetAsSeq({t \in One \cup {T(k) : k \in 1..NTerms} : Sensible(t)})
CatSrc == <<<<0, "iter">>, <<1, "iter">>, <<2, "iter">>, <<0, "plain">>, <<1, "plain">>, <<2, "plain">>, <<0, "flist">>, <<1, "list">>,
            <<2, "sort">>, <<2, "stable">>, <<2, "both">>, <<2, "arr">>, <<2, "arr">>, <<2, "arr">>>>
Ns == <<0, 2, 3, 5>>
Cmps == <<"none", "less", "cmp">>  Projs == <<"none", "key", "ident">>
Call(x) == LET s == (x \div 9) + 1 IN
           [cat |-> CatSrc[s][1], src |-> CatSrc[s][2], n |-> IF CatSrc[s][2] = "arr" THEN Ns[s - 10] ELSE 0,
            cmp |-> Cmps[((x \div 3) % 3) + 1], proj |-> Projs[(x % 3) + 1]]
NUniverse == Len(CatSrc) * 9
CallsOf(k, t) ==
  LET ok == {x \in 0..(NUniverse - 1) : Call(x).cat >= Cat(t) /\ Callable(t, Call(x))}
      m == Cardinality(ok)
      q == SetAsSeq(ok) IN
  IF m <= NCalls THEN ok ELSE {q[((((j * m) \div NCalls) + Rnd(Seed + 7, (k * 16) + j, m)) % m) + 1] : j \in 0..(NCalls - 1)}
Line(k) == LET t == Terms[k] IN
  <<t, Cat(t), AlwaysStable(t),
    SetAsSeq({LET c == Call(x) IN <<c.cat, c.src, c.n, c.cmp, c.proj, Guaranteed(t, c), SetAsSeq({<<o.hit, o.once, o.ret>> : o \in Outcomes(t, c)})>> : x \in CallsOf(k, t)})>>
Mine == {k \in 1..Len(Terms) : k % NShards = Shard}
ASSUME ndJsonSerialize(Env0("VP_OUT", "/dev/null"), SetAsSeq({l \in {Line(k) : k \in Mine} : l[4] # <<>>}))
VARIABLE done
Init == done = TRUE
Next == UNCHANGED done
=============================================================================
