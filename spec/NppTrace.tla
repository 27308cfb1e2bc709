------------------------------ MODULE NppTrace ------------------------------
(* Recorded calls [id, nums, all, ok, exact, p1, p2 (sequences of sequences   *)
(* of positions, from 0)].                                                    *)
EXTENDS Npp, Json, IOUtils
Runs == JsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l
vars == <<tid, l>>
Tag(ok, t) == IF ok THEN {} ELSE {t}
SetOf(p) == {p[k] + 1 : k \in DOMAIN p}
Tags(r) ==
  IF ~r.ok THEN {"C28.raised"}
  ELSE LET best == IF Len(r.nums) <= 12 THEN BestBrute(r.nums) ELSE BestDp(r.nums)
           shape == /\ Len(r.p1) = Len(r.p2) /\ Len(r.p1) >= 1
                    /\ (~r.all => Len(r.p1) = 1)
                    /\ \A k \in DOMAIN r.p1 : /\ SetOf(r.p1[k]) \cup SetOf(r.p2[k]) = DOMAIN r.nums
                                              /\ SetOf(r.p1[k]) \cap SetOf(r.p2[k]) = {}
                                              /\ Cardinality(SetOf(r.p1[k])) = Len(r.p1[k])
                                              /\ Cardinality(SetOf(r.p2[k])) = Len(r.p2[k])
       IN IF ~shape THEN {"C28.partition"}
          ELSE Tag(\A k \in DOMAIN r.p1 : SumOn(r.nums, SetOf(r.p1[k])) = best \/ SumOn(r.nums, SetOf(r.p2[k])) = best, "C28.optimal")
               \cup Tag(r.exact = (2 * best = Total(r.nums)), "C28.exact")
               \cup (IF r.all THEN LET sets == {SetOf(r.p1[k]) : k \in DOMAIN r.p1} IN
                                   Tag(Cardinality(sets) = Len(r.p1), "C28.twice")
                                   \cup (IF Len(r.nums) <= 12 THEN Tag(sets = Optimal(r.nums, best), "C28.all")
                                          ELSE Tag((\A S \in sets : SumOn(r.nums, S) = best) /\ Len(r.p1) = CountDp(r.nums, best), "C28.all"))
                     ELSE {})
TraceInit == tid \in DOMAIN Runs /\ l = 1
TraceNext == /\ l = 1 /\ l' = 2 /\ tid' = tid
             /\ LET tags == Tags(Runs[tid]) IN IF tags # {} THEN PrintT(<<"BAD", Runs[tid].id, l, "solve_npp", tags>>) ELSE TRUE
             /\ PrintT(<<"DONE", Runs[tid].id>>)
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
