----------------------------- MODULE AnnealTrace ----------------------------
(* Recorded runs of the real annealer must be behaviours of Anneal.           *)
(* Recorded: initial state (if given), the energy at the start of each sweep, *)
(* the number of accepted flips in each sweep, the returned samples.  Which   *)
(* variables were flipped, and in which order they were tried, is inferred by *)
(* TLC.  A run is accepted if some behaviour explains it ("DONE").            *)
EXTENDS Anneal, Json, IOUtils

Runs == JsonDeserialize(IOEnv.TRACE)

VARIABLES tid, rd, sw, s, todo, acc, rem
vars == <<tid, rd, sw, s, todo, acc, rem>>

R == Runs[tid]
PolyOf(r) == LET Q == FromTerms([i \in DOMAIN r.poly |-> <<{r.poly[i].m[k] : k \in DOMAIN r.poly[i].m}, r.poly[i].v>>])
             IN IF r.mtype = "ising" THEN Q ELSE Conv(Q, "qubo")
(* constant-level: evaluated once *)
Polys == [i \in DOMAIN Runs |-> PolyOf(Runs[i])]
P == Polys[tid]
VarSet(i) == {Runs[i].order[k] : k \in DOMAIN Runs[i].order}
V == VarSet(tid)

Starts(i, n) == LET q == Runs[i].reads[n] IN
  {x \in (IF DOMAIN q.init # {} THEN {q.init} ELSE [VarSet(i) -> Spin]) : q.en = <<>> \/ Eval(Polys[i], x) = q.en[1]}
(* A run without sweeps returns what it started from *)
TodoAt(i, n) == IF Runs[i].reads[n].en = <<>> THEN {} ELSE VarSet(i)

TraceInit == /\ tid \in DOMAIN Runs
             /\ rd = 1 /\ sw = 1 /\ s \in Starts(tid, 1)
             /\ todo = TodoAt(tid, 1) /\ acc = 0
             /\ rem = [k \in DOMAIN Runs[tid].final |-> Runs[tid].final[k].n]

Q == R.reads[rd]

(* Variables of different components do not influence each other (Independent *)
(* in AnnealMC), so their tries commute: components are taken one by one.     *)
CompOf(i) == [c \in DOMAIN Runs[i].comp |-> {Runs[i].comp[c][k] : k \in DOMAIN Runs[i].comp[c]}]
Comps == [i \in DOMAIN Runs |->
  IF /\ UNION {CompOf(i)[c] : c \in DOMAIN CompOf(i)} = VarSet(i)
     /\ \A m \in DOMAIN Polys[i] : m = {} \/ \E c \in DOMAIN CompOf(i) : m \subseteq CompOf(i)[c]
  THEN CompOf(i) ELSE <<VarSet(i)>>]
Next1 == IF R.mode = "sequential" \/ todo = {} THEN todo
         ELSE LET c == Comps[tid] IN todo \cap c[Min({k \in DOMAIN c : c[k] \cap todo # {}})]
(* The state after the last sweep is known if there is only one sample *)
Known == sw = Len(Q.en) /\ Len(R.final) = 1 /\ DOMAIN R.final[1].s = V

Try(v) == /\ rd <= Len(R.reads) /\ todo # {}
          /\ v \in Candidates(R.mode, R.order, Next1)
          /\ LET d == Delta(P, s, v) IN
             \/ MayFlip(d, Q.thr[sw]) /\ acc < Q.acc[sw] /\ (Known => R.final[1].s[v] # s[v]) /\ s' = Flip(s, v) /\ acc' = acc + 1
             \/ MayStay(d) /\ (Known => R.final[1].s[v] = s[v]) /\ UNCHANGED <<s, acc>>
          /\ todo' = todo \ {v}
          /\ UNCHANGED <<tid, rd, sw, rem>>

EndSweep == /\ rd <= Len(R.reads) /\ todo = {} /\ sw < Len(Q.en) /\ acc = Q.acc[sw]
            /\ Eval(P, s) = Q.en[sw + 1]
            /\ sw' = sw + 1 /\ todo' = V /\ acc' = 0
            /\ PrintT(<<"AT", R.id, rd, sw>>)
            /\ UNCHANGED <<tid, rd, s, rem>>

EndRead == /\ rd <= Len(R.reads) /\ todo = {} /\ (Q.en = <<>> \/ (sw = Len(Q.en) /\ acc = Q.acc[sw]))
           /\ \E k \in DOMAIN rem : rem[k] > 0 /\ R.final[k].s = s /\ rem' = [rem EXCEPT ![k] = @ - 1]
           /\ rd' = rd + 1 /\ sw' = 1 /\ acc' = 0 /\ UNCHANGED tid
           /\ PrintT(<<"AT", R.id, rd, sw>>)
           /\ IF rd < Len(R.reads) THEN s' \in Starts(tid, rd + 1) /\ todo' = TodoAt(tid, rd + 1)
              ELSE /\ s' = s /\ todo' = {}
                   /\ (\A k \in DOMAIN rem' : rem'[k] = 0) => PrintT(<<"DONE", R.id>>)

TraceNext == (\E v \in V : Try(v)) \/ EndSweep \/ EndRead
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
