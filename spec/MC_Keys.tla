------------------------------ MODULE MC_Keys -------------------------------
(* The order of every key type is a strict weak order, and the radix keys   *)
(* preserve it.                                                              *)
EXTENDS Keys
B == {0, 1, 127, 128, 255}
B2 == {<<a, b>> : a \in B, b \in B}
SeqUpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
Small == {<<0>>, <<127>>, <<128>>}
Types == {<<"u", 2>>, <<"s", 2>>, <<"f", 2>>, <<"str">>, <<"vec", <<"s", 1>>>>, <<"prod", <<"s", 1>>, <<"str">>>>,
          <<"vec", <<"prod", <<"u", 1>>, <<"s", 1>>>>>>, <<"vec", <<"vec", <<"s", 1>>>>>>, <<"prod", <<"bool">>, <<"s", 1>>, <<"u", 1>>>>}
Values(t) ==
  CASE t[1] \in {"u", "s", "f"} -> B2
    [] t[1] = "str" -> SeqUpTo({0, 97, 255}, 2)
    [] t = <<"vec", <<"s", 1>>>> -> SeqUpTo(Small, 2)
    [] t = <<"vec", <<"vec", <<"s", 1>>>>>> -> SeqUpTo(SeqUpTo({<<0>>, <<200>>}, 1), 2)
    [] t = <<"vec", <<"prod", <<"u", 1>>, <<"s", 1>>>>>> -> SeqUpTo({<<a, b>> : a \in {<<0>>, <<255>>}, b \in {<<0>>, <<255>>}}, 2)
    [] Len(t) = 3 -> {<<a, b>> : a \in Small, b \in SeqUpTo({0, 255}, 1)}
    [] OTHER -> {<<a, b, c>> : a \in {<<0>>, <<1>>}, b \in Small, c \in Small}
VARIABLES t, a
vars == <<t, a>>
Init == t \in Types /\ a \in Values(t)
Next == UNCHANGED vars
Antisymmetric == \A b \in Values(t) : Cmp(t, a, b) = -Cmp(t, b, a)
Reflexive == Cmp(t, a, a) = 0
Transitive == \A b \in Values(t) : Cmp(t, a, b) <= 0 => \A c \in Values(t) : Cmp(t, b, c) <= 0 => Cmp(t, a, c) <= 0
Total == (t[1] # "f") => \A b \in Values(t) : Cmp(t, a, b) = 0 => a = b
Radix == (t[1] \in {"u", "s", "f"}) => \A b \in Values(t) : Cmp(t, a, b) = CmpBytes(RadixKey(t, a), RadixKey(t, b))
=============================================================================
