------------------------------- MODULE NppMC --------------------------------
(* The dynamic program against brute force, for all lists up to N over 1..M.  *)
EXTENDS Npp
CONSTANTS N, M, Variant
VARIABLES nums, i, t
vars == <<nums, i, t>>
Lists == UNION {[1..n -> 1..M] : n \in 0..N}
Init == nums \in Lists /\ i = 0 /\ t = DpInit
Step == /\ i < Len(nums) /\ i' = i + 1
        /\ LET one == DpStep(t, i', nums[i'], Half(nums))
           IN t' = IF Variant = "twice" THEN DpStep(one, i', nums[i'], Half(nums))
                   ELSE IF Variant = "strict" THEN DpStep(t, i', nums[i'], Half(nums) - 1)
                   ELSE IF Variant = "overwrite" THEN [s \in DOMAIN one |-> IF s - nums[i'] \in DOMAIN t THEN {S \cup {i'} : S \in t[s - nums[i']]} ELSE one[s]]
                   ELSE one
        /\ UNCHANGED nums
Spec == Init /\ [][Step]_vars
Done == i = Len(nums)
InvPrefix == \A s \in DOMAIN t : t[s] # {} /\ \A S \in t[s] : S \subseteq 1..i /\ SumOn(nums, S) = s
InvBest == Done => Max(DOMAIN t) = BestBrute(nums)
InvAll == Done => t[Max(DOMAIN t)] = Optimal(nums, BestBrute(nums))
InvReach == Done => BestDp(nums) = BestBrute(nums) /\ CountDp(nums, BestBrute(nums)) = Cardinality(Optimal(nums, BestBrute(nums)))
=============================================================================
