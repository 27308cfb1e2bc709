------------------------------- MODULE IoTrace ------------------------------
(* Recorded pipelines against Io.  A run:                                     *)
(*  [id, kind ("number", "json", "text"), lines (seq of seq of characters),   *)
(*   vals (seq of tokens, what a json or text line means), own (seq of ms),   *)
(*   reassign, whole (one window has everything: no window is outdated),      *)
(*   elems (seq of [i, t, n (digits), s (token)]),                  *)
(*   source, wantsource, sink, wantsink (where from, where to),               *)
(*   outs (what the pipeline produced), written, clean]                       *)
EXTENDS Io, Json, IOUtils
Runs == JsonDeserialize(IOEnv.TRACE)
VARIABLES tid, done
R == Runs[tid]
Tag(ok, t) == IF ok THEN {} ELSE {t}
Verdict ==
  LET num == R.kind = "number"
      kept == Kept(R.lines, num)
      n == Len(kept)
      e == R.elems
      sound == {k \in DOMAIN e : e[k].i \in 0..(n - 1)}
  IN Tag(R.clean, "C27.fails")
     \cup Tag(Cardinality({e[k].i : k \in DOMAIN e}) = Len(e) /\ sound = DOMAIN e /\ (R.whole => Len(e) = n), "C27.numbered")
     \cup Tag(\A k \in sound : IF num THEN e[k].n = Number(R.lines[kept[e[k].i + 1]]) ELSE e[k].s = R.vals[kept[e[k].i + 1]], "C27.value")
     \cup Tag(\A k \in sound : e[k].t = TimeOf(e[k].i, kept[e[k].i + 1], R.own, R.reassign, 1000), "C27.time")
     \cup Tag(SameBag(R.outs, R.written), "C27.written")
     \cup Tag(R.source = R.wantsource /\ R.sink = R.wantsink, "C27.where")
TraceInit == tid \in DOMAIN Runs /\ done = FALSE
TraceNext == /\ ~done /\ done' = TRUE /\ tid' = tid
             /\ IF Verdict # {} THEN PrintT(<<"BAD", R.id, 1, "stream", Verdict>>) ELSE TRUE
             /\ PrintT(<<"DONE", R.id>>)
TraceSpec == TraceInit /\ [][TraceNext]_<<tid, done>>
=============================================================================
