------------------------------ MODULE GenFixed ------------------------------
(***************************************************************************)
(* The documented costs of the fixed-size sorters: the total number of     *)
(* comparisons (low_comparisons_sorter) and of moves (low_moves_sorter)    *)
(* over all the permutations of n elements.  As decimal strings, they do   *)
(* not fit in TLC's integers.  Environment: VP_OUT, VP_MAXC, VP_MAXM.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, Json, IOUtils, TLC
Comparisons == <<"0", "0", "2", "16", "112", "832", "6912", "62784", "623232", "6759936", "79937280",
                 "1020833280", "15167554560", "223436206080">>
Moves == <<"0", "0", "3", "17", "122", "898", "7188", "63276", "612048", "6476112", "74558880",
           "929011680", "12465394560", "179294186880">>
MaxC == atoi(IOEnv.VP_MAXC)
MaxM == atoi(IOEnv.VP_MAXM)
Lines == [k \in 1..(MaxC + 1) |-> <<"weight", "low_comparisons", k - 1, Comparisons[k]>>]
      \o [k \in 1..(MaxM + 1) |-> <<"weight", "low_moves", k - 1, Moves[k]>>]
ASSUME ndJsonSerialize(IOEnv.VP_OUT, Lines)
VARIABLE done
Init == done = FALSE
Next == done' = TRUE
=============================================================================
