-------------------------------- MODULE Npp ---------------------------------
(* Number partitioning.  nums is a sequence of positive integers, a subset is *)
(* a set of positions.                                                        *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC

SumOn(nums, S) == FoldSet(LAMBDA i, a : a + nums[i], 0, S)
Total(nums) == SumOn(nums, DOMAIN nums)
(* Brute force: the largest sum of a subset that is at most half of the total *)
Half(nums) == Total(nums) \div 2
BestBrute(nums) == Max({s \in {SumOn(nums, S) : S \in SUBSET DOMAIN nums} : 2 * s <= Total(nums)})
Optimal(nums, best) == {S \in SUBSET DOMAIN nums : SumOn(nums, S) = best}

(* Dynamic programming: one number after the other *)
DpInit == [s \in {0} |-> {{}}]
DpStep(t, i, v, half) ==
  LET old == DOMAIN t
      new == {s + v : s \in {s \in old : s + v <= half}}
  IN [s \in old \cup new |-> (IF s \in old THEN t[s] ELSE {}) \cup (IF s - v \in old THEN {S \cup {i} : S \in t[s - v]} ELSE {})]
(* sums only, for long lists *)
RECURSIVE ReachFrom(_, _, _, _)
ReachFrom(nums, i, R, half) == IF i > Len(nums) THEN R
                               ELSE ReachFrom(nums, i + 1, R \cup {s + nums[i] : s \in {s \in R : s + nums[i] <= half}}, half)
BestDp(nums) == Max(ReachFrom(nums, 1, {0}, Half(nums)))
(* the number of subsets for each sum *)
RECURSIVE CountFrom(_, _, _, _)
CountFrom(nums, i, C, half) ==
  IF i > Len(nums) THEN C
  ELSE CountFrom(nums, i + 1, [s \in 0..half |-> C[s] + (IF s >= nums[i] THEN C[s - nums[i]] ELSE 0)], half)
CountDp(nums, best) == CountFrom(nums, 1, [s \in 0..Half(nums) |-> IF s = 0 THEN 1 ELSE 0], Half(nums))[best]
=============================================================================
