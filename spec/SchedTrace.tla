----------------------------- MODULE SchedTrace -----------------------------
(* Recorded temperature histories (C18) and acceptance counts at constant     *)
(* temperature (C16) against Anneal.                                          *)
(* A history: [id, kind "temp", T0, R, period (-1 forward), cp, cq, sweeps,   *)
(*   reads: sequence of [th, nen, nac]] with temperatures in a unit so small  *)
(*   that rounding is below Tol units.                                        *)
(* A chain: [id, kind "rate", mtype, poly, order, en (energies at sweep starts),     *)
(*   ps: sequence of [d, p4 (probability * 10^4)]]: the energy determines the *)
(*   state, variables are tried in order.                                     *)
EXTENDS Anneal, Json, IOUtils

Runs == JsonDeserialize(IOEnv.TRACE)
VARIABLES tid, k, x, st, cnt
vars == <<tid, k, x, st, cnt>>
R == Runs[tid]
Abs(n) == IF n < 0 THEN 0 - n ELSE n

Bad(tag) == PrintT(<<"BAD", R.id, k, "", {tag}>>)

(* ---- temperatures: one step per sweep, all reads ---- *)
TempOk(want, got, n) == Abs(want - got) <= n + 2
Shape == /\ Len(R.reads) = R.nreads
         /\ \A r \in DOMAIN R.reads : Len(R.reads[r].th) = R.sweeps /\ R.reads[r].nen = R.sweeps /\ R.reads[r].nac = R.sweeps
TempStart == /\ R.kind = "temp" /\ k = 0
             /\ IF Shape THEN k' = 1 ELSE Bad("C18.length") /\ PrintT(<<"DONE", R.id>>) /\ k' = R.sweeps + 1
             /\ x' = SchedInit(R.T0, R.R, R.period)
             /\ UNCHANGED <<tid, st, cnt>>
TempStep == /\ R.kind = "temp" /\ k >= 1 /\ k <= R.sweeps
            /\ IF \A r \in DOMAIN R.reads :
                    IF k = 1 /\ R.period >= 0 THEN R.reads[r].th[1] * 1000 <= R.R /\ R.reads[r].th[1] >= 0
                    ELSE TempOk(x.T, R.reads[r].th[k], k)
               THEN TRUE
               ELSE Bad(IF R.period < 0 THEN "C18.forward" ELSE IF k - 1 <= R.period THEN "C18.reverse" ELSE "C18.cooling")
            /\ x' = SchedNext(x, k - 1, R.R, R.period, R.cp, R.cq)
            /\ k' = k + 1
            /\ (k' = R.sweeps + 1 => PrintT(<<"DONE", R.id>>))
            /\ UNCHANGED <<tid, st, cnt>>
(* ---- acceptance rates: one step per sweep ---- *)
PolyOf(r) == LET T == FromTerms([j \in DOMAIN r.poly |-> <<{r.poly[j].m[q] : q \in DOMAIN r.poly[j].m}, r.poly[j].v>>])
             IN IF r.mtype = "ising" THEN T ELSE Conv(T, "qubo")
Polys == [i \in DOMAIN Runs |-> IF Runs[i].kind = "rate" THEN PolyOf(Runs[i]) ELSE ZeroPoly]
VarSet(i) == {Runs[i].order[q] : q \in DOMAIN Runs[i].order}
(* energy -> state, a bijection by construction of the problem *)
StateOf == [i \in DOMAIN Runs |-> IF Runs[i].kind = "rate" THEN
              LET S == [VarSet(i) -> Spin] IN
              [e \in {Eval(Polys[i], s) : s \in S} |-> CHOOSE s \in S : Eval(Polys[i], s) = e] ELSE <<>>]
Zero == [q \in DOMAIN R.ps |-> [n |-> 0, k |-> 0]]
RateStart == /\ R.kind = "rate" /\ k = 0
             /\ IF \A i \in DOMAIN R.en : R.en[i] \in DOMAIN StateOf[tid]
                THEN k' = 1 /\ st' = StateOf[tid][R.en[1]] /\ UNCHANGED <<tid, x>>
                ELSE Bad("C16.energies") /\ k' = Len(R.en) + 1 /\ UNCHANGED <<tid, x, st>>
             /\ cnt' = Zero
(* one sweep: from the state a to the state b, in order *)
RECURSIVE Sweep(_, _, _, _)
Sweep(a, b, i, c) ==
  IF i > Len(R.order) THEN [ok |-> TRUE, c |-> c]
  ELSE LET v == R.order[i]
           d == Delta(Polys[tid], a, v)
           flipped == a[v] # b[v]
       IN IF d <= 0 THEN (IF flipped THEN Sweep(Flip(a, v), b, i + 1, c) ELSE [ok |-> FALSE, c |-> c])
          ELSE LET q == CHOOSE q \in DOMAIN R.ps : R.ps[q].d = d
                   c2 == [c EXCEPT ![q] = [n |-> @.n + 1, k |-> @.k + (IF flipped THEN 1 ELSE 0)]]
               IN Sweep(IF flipped THEN Flip(a, v) ELSE a, b, i + 1, c2)
RateStep == /\ R.kind = "rate" /\ k >= 1 /\ k < Len(R.en)
            /\ LET b == StateOf[tid][R.en[k + 1]]
                   r == Sweep(st, b, 1, cnt)
               IN /\ IF r.ok THEN TRUE ELSE Bad("C16.downhill")
                  /\ cnt' = r.c /\ st' = b
                  /\ k' = IF r.ok THEN k + 1 ELSE Len(R.en)
            /\ UNCHANGED <<tid, x>>
RateEnd == /\ R.kind = "rate" /\ k = Len(R.en)
           /\ \A q \in DOMAIN R.ps :
                \* allowed: 6.7 standard deviations of the binomial distribution, and a little more
                LET dev == Abs(cnt[q].k * 10000 - cnt[q].n * R.ps[q].p4) \div 10000
                    var == 1 + (((cnt[q].n * R.ps[q].p4) \div 10000) * (10000 - R.ps[q].p4)) \div 10000
                IN IF dev * dev <= 45 * var + 50
                   THEN TRUE ELSE PrintT(<<"BAD", R.id, R.ps[q].d, "", {"C16.rate"}>>)
           /\ PrintT(<<"DONE", R.id>>)
           /\ PrintT(<<"RATE", R.id, [q \in DOMAIN R.ps |-> <<R.ps[q].d, R.ps[q].p4, cnt[q].n, cnt[q].k>>]>>)
           /\ k' = Len(R.en) + 1 /\ UNCHANGED <<tid, x, st, cnt>>

(* ---- flips of uncoupled variables in one sweep from one state, over many reads: *)
(* [id, kind "flips", mtype, poly, order, init, reads, n (samples), flips, ps]   ---- *)
Within(n, kk, p4) == LET dev == Abs(kk * 10000 - n * p4) \div 10000
                         var == 1 + (((n * p4) \div 10000) * (10000 - p4)) \div 10000
                     IN dev * dev <= 45 * var + 50
FlipTags == LET P == PolyOf(R) IN
  IF R.n # R.reads THEN {"C16.reads"}
  ELSE UNION {LET v == R.order[j]
                  d == Delta(P, R.init, v)
                  kk == R.flips[v]
              IN IF d <= 0 THEN (IF kk = R.n THEN {} ELSE {"C16.downhill"})
                 ELSE LET q == CHOOSE q \in DOMAIN R.ps : R.ps[q].d = d IN (IF Within(R.n, kk, R.ps[q].p4) THEN {} ELSE {"C16.rate"})
              : j \in DOMAIN R.order}
Flips == /\ R.kind = "flips" /\ k = 0 /\ k' = 1
         /\ (FlipTags # {} => PrintT(<<"BAD", R.id, k, "", FlipTags>>))
         /\ PrintT(<<"DONE", R.id>>)
         /\ UNCHANGED <<tid, x, st, cnt>>

TraceInit == /\ tid \in DOMAIN Runs /\ k = 0 /\ x = [T |-> 0, tgt |-> 0] /\ st = <<>> /\ cnt = <<>>
TraceNext == TempStart \/ TempStep \/ RateStart \/ RateStep \/ RateEnd \/ Flips
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
