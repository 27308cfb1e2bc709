------------------------------- MODULE Stream -------------------------------
(* The streaming algorithms: windows over timed elements are processed one by *)
(* one by three callbacks (map, solve, unmap) that may fail; state is handed  *)
(* over from window to window.                                                *)
(* Elements are numbered from 0; time: element -> time (integers, ms).        *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

Algs == {"window", "attenuation", "partial", "delta", "incremental"}
Sliding == {"window", "attenuation", "partial"}

(* ---- windows: identified by their end; [end - size, end) ---- *)
FloorTo(t, p) == t - (t % p)
EndsOf(t, size, period) ==
  {e \in {FloorTo(t, period) - j * period + size : j \in 0..((size \div period) + 1)} : e - size <= t /\ t < e}
Ends(time, size, period) == UNION {EndsOf(time[i], size, period) : i \in DOMAIN time}
Content(time, e, size) == {i \in DOMAIN time : e - size <= time[i] /\ time[i] < e}

(* ---- processing one window ---- *)
(* st: [ts, prev, model, smp]; ts is <<>> before the first window             *)
None == <<>>
IsOutdated(st, e) == st.ts # None /\ e < st.ts[1]
Current(alg, prev, W, keep) ==
  CASE alg = "incremental" -> prev \cup W
    [] alg = "partial" -> W \cup (prev \cap keep)
    [] OTHER -> W
Incoming(prev, cur) == cur \ prev
Outgoing(prev, cur) == prev \ cur
(* fail: "none" or the step that fails *)
After(st, e, cur, fail, model, smp) ==
  [ts |-> <<e>>, prev |-> cur,
   model |-> IF fail = "map" THEN st.model ELSE model,
   smp |-> IF fail \in {"map", "solve"} THEN st.smp ELSE smp]

(* ---- attenuation: integers, scales in units of 1/One ---- *)
One == 100000
Abs(n) == IF n < 0 THEN 0 - n ELSE n
(* rows: [key (has the attribute), t, s]; a scale is linear in the age *)
WantScale(r, got, lo, hi, min) == Abs((got - min) * (hi - lo) - (One - min) * (r.t - lo)) <= 2 * (hi - lo)
=============================================================================
