------------------------------ MODULE StreamMC ------------------------------
(* All streams of up to N elements with times in Times, all algorithms, all   *)
(* arrival orders of the windows, all filters, one fault at any place.        *)
(* Models are abstract: [id, has] with has the set of elements the mapping    *)
(* maintains by adding incoming and dropping outgoing ones.                   *)
EXTENDS Stream
CONSTANTS N, Size, Period, MaxTime, Variant, Emit

VARIABLES alg, time, keep, fault, left, st, log, m, cnt, outs, bad
vars == <<alg, time, keep, fault, left, st, log, m, cnt, outs, bad>>
Per == IF alg \in Sliding THEN Period ELSE Size
Faults == {<<"none", 0>>} \cup ({"map", "solve", "unmap"} \X {1, 2})
Init == /\ alg \in Algs
        /\ time \in UNION {[0..(n - 1) -> 0..MaxTime] : n \in 1..N}
        /\ keep \in (IF alg = "partial" THEN {{}, {0}, {1}, DOMAIN time} ELSE {{}})
        /\ fault \in Faults
        /\ left = Ends(time, Size, Per)
        /\ st = [ts |-> None, prev |-> {}, model |-> 0, smp |-> 0]
        /\ m = [id |-> 0, has |-> {}]            \* the model in the state
        /\ cnt = 0 /\ log = <<>> /\ outs = <<>> /\ bad = FALSE
        /\ (Emit => PrintT(<<"PLAN", alg, [i \in 1..Cardinality(DOMAIN time) |-> time[i - 1]], SetToSeq(keep), fault>>))

Outdated(e) == /\ IsOutdated(st, e)
               /\ outs' = Append(outs, [end |-> e, kind |-> "outdated"])
               /\ st' = IF Variant = "outdatedstate" THEN [st EXCEPT !.prev = Content(time, e, Size)] ELSE st
               /\ UNCHANGED <<log, m, cnt, bad>>
Process(e) ==
  /\ ~IsOutdated(st, e) \/ (Variant = "nooutdated")
  /\ LET W == Content(time, e, Size)
         prev == st.prev
         cur == Current(IF Variant = "plainpartial" /\ alg = "partial" THEN "window" ELSE alg, prev, W, keep)
         inc == Incoming(prev, cur)
         out == IF Variant = "keepout" /\ alg = "partial" THEN Outgoing(prev, W) ELSE Outgoing(prev, cur)
         k == cnt + 1
         fail == IF fault[2] = k THEN fault[1] ELSE "none"
         work == [id |-> k, has |-> (m.has \cup inc) \ out]
         mm == IF fail = "map" THEN (IF Variant = "leak" THEN work ELSE m) ELSE work
         s2 == After(st, e, cur, fail, k, k)
     IN /\ st' = IF Variant = "forgetsamples" /\ fail = "solve" THEN [s2 EXCEPT !.smp = 0]
                 ELSE IF Variant = "earlystate" /\ fail = "map" THEN [s2 EXCEPT !.model = k] ELSE s2
        /\ m' = mm
        /\ cnt' = k
        /\ bad' = (bad \/ fail = "map")
        /\ log' = Append(log, [end |-> e, W |-> W, cur |-> cur, inc |-> inc, out |-> out, model |-> st.model, mid |-> m.id, smp |-> st.smp, fail |-> fail, k |-> k])
        /\ outs' = Append(outs, [end |-> e, kind |-> fail])
Next == /\ \E e \in left : (Outdated(e) \/ Process(e)) /\ left' = left \ {e}
        /\ UNCHANGED <<alg, time, keep, fault>>
Spec == Init /\ [][Next]_vars

(* C21 *)
InvDiff == \A i \in DOMAIN log :
             LET prev == IF i = 1 THEN {} ELSE log[i - 1].cur IN
             /\ (prev \cup log[i].inc) \ log[i].out = log[i].cur
             /\ log[i].inc \cap log[i].out = {} /\ log[i].inc \cap prev = {} /\ log[i].out \subseteq prev
(* C20 *)
InvContent == \A i \in DOMAIN log :
                /\ log[i].W \subseteq log[i].cur
                /\ (alg \in {"window", "attenuation", "delta"} => log[i].cur = log[i].W)
                /\ (alg = "incremental" => log[i].cur = UNION {log[j].W : j \in 1..i})
                /\ (alg = "partial" => log[i].cur \subseteq UNION {log[j].W : j \in 1..i} /\ log[i].cur \ log[i].W \subseteq keep
                                       /\ (i > 1 => log[i - 1].cur \cap keep \subseteq log[i].cur))
(* C22 *)
InvForward == \A i, j \in DOMAIN log : i < j => log[i].end <= log[j].end
InvOne == /\ \A i, j \in DOMAIN outs : i # j => outs[i].end # outs[j].end
          /\ {outs[i].end : i \in DOMAIN outs} = Ends(time, Size, Per) \ left
(* C23, C24 *)
InvHandOver == \A i \in DOMAIN log :
   LET okm == {j \in 1..(i - 1) : log[j].fail # "map"}
       oks == {j \in 1..(i - 1) : log[j].fail \notin {"map", "solve"}}
   IN /\ log[i].model = (IF okm = {} THEN 0 ELSE log[Max(okm)].k) /\ log[i].mid = log[i].model
      /\ log[i].smp = (IF oks = {} THEN 0 ELSE log[Max(oks)].k)
(* C26 *)
InvMaintained == (~bad /\ log # <<>>) => m.has = log[Len(log)].cur
=============================================================================
