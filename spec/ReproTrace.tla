----------------------------- MODULE ReproTrace -----------------------------
EXTENDS Repro, Json, IOUtils
Runs == JsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, memo
vars == <<tid, l, memo>>
TraceInit == tid \in DOMAIN Runs /\ l = 1 /\ memo = [x \in {} |-> 0]
TraceNext == /\ l <= Len(Runs[tid].ev)
             /\ LET e == Runs[tid].ev[l]
                    tags == IF e.op = "solve" THEN Judge(e, memo) \cup If(e.ok, "C17.raised") ELSE {}
                IN /\ IF tags # {} THEN PrintT(<<"BAD", Runs[tid].id, l, e.op, tags>>) ELSE TRUE
                   /\ memo' = IF e.op = "solve" /\ e.ok THEN Memo(e, memo) ELSE memo
             /\ l' = l + 1
             /\ (l' > Len(Runs[tid].ev) => PrintT(<<"DONE", Runs[tid].id>>))
             /\ UNCHANGED tid
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
