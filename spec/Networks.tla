------------------------------ MODULE Networks ------------------------------
(***************************************************************************)
(* Comparator networks, extracted from the library.  By the 0-1 principle  *)
(* a network sorts every input iff it sorts the 2^n inputs of zeros and    *)
(* ones.  The state is the set of 0-1 vectors that can be on the wires     *)
(* after some of the comparators, kept as a product: wires that no         *)
(* comparator has connected yet are independent, so each component of      *)
(* connected wires has its own set.  Each step connects two components     *)
(* and/or sends one of them through a few comparators.                     *)
(*                                                                         *)
(* The order of the steps is a hint computed outside; PlanIsLegal checks   *)
(* that it only exchanges comparators that share no wire.                  *)
(*                                                                         *)
(* Environment: VP_IN (lines <<family, n, pairs, steps, status>>), VP_OUT. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC
Env(name, default) == IF name \in DOMAIN IOEnv THEN IOEnv[name] ELSE default
Shard   == atoi(Env("VP_SHARD", "0"))
NShards == atoi(Env("VP_NSHARDS", "1"))
Nets == TLCEval(ndJsonDeserialize(IOEnv.VP_IN))
Mine == {k \in DOMAIN Nets : k % NShards = Shard}
Family(k) == Nets[k][1]
Size(k)   == Nets[k][2]
Pairs(k)  == Nets[k][3]
Steps(k)  == Nets[k][4]
Status(k) == Nets[k][5]

(* The number of compare-exchanges documented for sorting_network_sorter. *)
DocCE == <<0, 1, 3, 5, 9, 12, 16, 19, 25, 29, 35, 39, 45, 51, 56, 60,
           71, 77, 85, 91, 99, 106, 114, 120, 130, 139, 147, 155, 164, 172, 180, 185,
           199, 209, 220, 227, 240, 250, 259, 265, 282, 291, 303, 309, 324, 332, 340, 346,
           365, 376, 387, 395, 411, 421, 432, 438, 454, 465, 476, 483, 497, 506, 515, 521>>
DocumentedCE(k) == IF Family(k) = "sorting_network" THEN (IF Size(k) = 0 THEN 0 ELSE DocCE[Size(k)]) ELSE Len(Pairs(k))

WellFormed(k) == \A i \in DOMAIN Pairs(k) : LET p == Pairs(k)[i] IN 0 <= p[1] /\ p[1] < p[2] /\ p[2] < Size(k)

(* ---- vectors: words of 22 wires ---- *)
Pow == [i \in 0..21 |-> 2^i]
Word(w) == (w \div 22) + 1
Bit(w)  == Pow[w % 22]
Words(n) == IF n = 0 THEN 1 ELSE ((n + 21) \div 22)
Zero(n) == [i \in 1..Words(n) |-> 0]
Unit(n, w) == [Zero(n) EXCEPT ![Word(w)] = Bit(w)]
RECURSIVE SumTo(_, _, _, _)
SumTo(w, i, lo, hi) == IF i > hi THEN 0 ELSE (IF i >= lo /\ Word(i) = w THEN Bit(i) ELSE 0) + SumTo(w, i + 1, lo, hi)
Sorted(n) == {[w \in 1..Words(n) |-> SumTo(w, n - j, n - j, n - 1)] : j \in 0..n}
Join(x, y) == [i \in DOMAIN x |-> x[i] + y[i]]          \* of different wires

(* A compare-exchange: afterwards the smaller value is on the first wire.  *)
Exchange(x, c) ==
  IF (x[c[1]] \div c[2]) % 2 = 1 /\ (x[c[3]] \div c[4]) % 2 = 0
  THEN IF c[1] = c[3] THEN [x EXCEPT ![c[1]] = (@ - c[2]) + c[4]]
       ELSE [x EXCEPT ![c[1]] = @ - c[2], ![c[3]] = @ + c[4]]
  ELSE x
Through(S, k, run) ==
  LET cs == TLCEval([i \in DOMAIN run |-> LET p == Pairs(k)[run[i]] IN <<Word(p[1]), Bit(p[1]), Word(p[2]), Bit(p[2])>>])
  IN TLCEval({FoldLeft(Exchange, x, cs) : x \in S})

(* ---- the hint is a legal reordering ---- *)
(* For each comparator, the previous comparator on each of its wires.      *)
Before(k) ==
  FoldLeft(LAMBDA acc, p : TLCEval([last |-> [acc.last EXCEPT ![p[1]] = acc.i, ![p[2]] = acc.i], i |-> acc.i + 1,
                            prev |-> Append(acc.prev, <<acc.last[p[1]], acc.last[p[2]]>>)]),
           [last |-> [w \in 0..(Size(k) - 1) |-> 0], i |-> 1, prev |-> <<>>], Pairs(k)).prev
Order(k) == FoldLeft(LAMBDA acc, s : acc \o s[3], <<>>, Steps(k))
PlanIsLegal(k) ==
  LET prev == TLCEval(Before(k))
      r == FoldLeft(LAMBDA acc, c :
             LET p == Pairs(k)[c] IN
             TLCEval([ok |-> acc.ok /\ acc.last[p[1]] = prev[c][1] /\ acc.last[p[2]] = prev[c][2],
                      last |-> [acc.last EXCEPT ![p[1]] = c, ![p[2]] = c]]),
             [ok |-> TRUE, last |-> [w \in 0..(Size(k) - 1) |-> 0]], TLCEval(Order(k)))
  IN r.ok /\ (Status(k) = "complete" => Len(Order(k)) = Len(Pairs(k)))

VARIABLES net, pos, part, sets
vars == <<net, pos, part, sets>>
Init == /\ net \in Mine /\ pos = 0
        /\ part = [w \in 0..(Size(net) - 1) |-> w]
        /\ sets = [w \in 0..(Size(net) - 1) |-> {Zero(Size(net)), Unit(Size(net), w)}]
        /\ Status(net) # "malformed" => Assert(PlanIsLegal(net), "illegal plan")
Step ==
  /\ Status(net) # "malformed" /\ pos < Len(Steps(net))
  /\ LET s == Steps(net)[pos + 1] IN
     LET a == s[1] IN LET b == s[2] IN
     LET part2 == IF b >= 0 THEN [w \in DOMAIN part |-> IF part[w] = b THEN a ELSE part[w]] ELSE part
         joined == IF b >= 0 THEN {Join(x, y) : x \in sets[a], y \in sets[b]} ELSE sets[a]
     IN /\ a \in DOMAIN sets /\ (b >= 0 => b \in DOMAIN sets /\ a # b)
        /\ Assert(\A i \in DOMAIN s[3] : part2[Pairs(net)[s[3][i]][1]] = a /\ part2[Pairs(net)[s[3][i]][2]] = a, "plan leaves its component")
        /\ part' = part2
        /\ sets' = [r \in DOMAIN sets \ {b} |-> IF r = a THEN Through(joined, net, s[3]) ELSE sets[r]]
  /\ pos' = pos + 1 /\ net' = net
Rest(k) == LET done == {Order(k)[i] : i \in DOMAIN Order(k)} IN
           SelectSeq([i \in DOMAIN Pairs(k) |-> <<i, Pairs(k)[i]>>], LAMBDA e : e[1] \notin done)
(* What is left to the driver: the product of two components is too large  *)
(* for TLC, it sends all of it through the rest of the comparators.        *)
Emit ==
  /\ Status(net) = "product" /\ pos = Len(Steps(net))
  /\ LET r == TLCEval(Rest(net)) IN
     ndJsonSerialize(Env("VP_OUT", "/tmp") \o "." \o Family(net) \o ToString(Size(net)),
       <<<<"suffix", Family(net), Size(net), [i \in DOMAIN r |-> r[i][2]],
           SetToSeq({SetToSeq(sets[c]) : c \in DOMAIN sets})>>>>)
  /\ pos' = pos + 1 /\ UNCHANGED <<net, part, sets>>
Next == Step \/ Emit
Spec == Init /\ [][Next]_vars
view == <<net, pos>>

Finished == Status(net) = "complete" /\ pos = Len(Steps(net))
SortsEveryInput == Finished /\ Size(net) > 0 => Cardinality(DOMAIN sets) = 1 /\ \A r \in DOMAIN sets : sets[r] \subseteq Sorted(Size(net))
DocumentedSize == Len(Pairs(net)) = DocumentedCE(net)
Malformed == Status(net) # "malformed" /\ WellFormed(net)
Counted == IF (Finished \/ (Status(net) = "product" /\ pos > Len(Steps(net)))) THEN TLCSet(1, TLCGet(1) + 1) ELSE TRUE
ASSUME TLCSet(1, 0)
AllFinished == Assert(TLCGet(1) = Cardinality(Mine), "a plan got stuck")
=============================================================================
