----------------------------- MODULE StreamTrace ----------------------------
(* Recorded pipeline runs against Stream.  A run:                             *)
(*  [id, alg, size, period, mtype, times (sequence, element i at position     *)
(*   i+1), data (sequence of strings), keep (sequence of element numbers),    *)
(*   pre, suf, stamp (options), solver, win (one entry per output, in order)] *)
(* An entry: [end, text [pre, suf, stamp, ret, step, msg, outdated, refs],    *)
(*   map, solve, unmap (sequences of calls)], a call:                         *)
(*   [el, inc, out (sequences of [i, t, d]), ok, msg, ...]                    *)
EXTENDS Stream, Json, IOUtils

Runs == JsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, st, seen, hadfault
vars == <<tid, l, st, seen, hadfault>>
R == Runs[tid]
Tag(ok, t) == IF ok THEN {} ELSE {t}
Times == [i \in DOMAIN Runs |-> [k \in 0..(Len(Runs[i].times) - 1) |-> Runs[i].times[k + 1]]]
Period(r) == IF r.alg \in Sliding THEN r.period ELSE r.size
Wanted == [i \in DOMAIN Runs |-> Ends(Times[i], Runs[i].size, Period(Runs[i]))]
SetOf(s) == {s[k].i : k \in DOMAIN s}
SeqSet(s) == {s[k] : k \in DOMAIN s}
Ordered(s) == \A k \in DOMAIN s : k > 1 => s[k - 1].t <= s[k].t
Once(s) == Cardinality(SetOf(s)) = Len(s)
Faithful(s) == \A k \in DOMAIN s : s[k].i \in DOMAIN Times[tid] /\ s[k].t = Times[tid][s[k].i] /\ s[k].d = R.data[s[k].i + 1]

Outd(w) == IsOutdated(st, w.end)
Calls(w) == w.map \o w.solve \o w.unmap
Fail(w) == IF w.map # <<>> /\ ~w.map[1].ok THEN "map"
           ELSE IF w.solve # <<>> /\ ~w.solve[1].ok THEN "solve"
           ELSE IF w.unmap # <<>> /\ ~w.unmap[1].ok THEN "unmap" ELSE "none"

(* ---- C20: the elements ---- *)
C20(w) == LET cur == Current(R.alg, st.prev, Content(Times[tid], w.end, R.size), SeqSet(R.keep)) IN
  UNION {LET c == Calls(w)[k] IN
         Tag(SetOf(c.el) = cur, "C20.elements") \cup Tag(Once(c.el), "C20.once") \cup Tag(Ordered(c.el), "C20.order") \cup Tag(Faithful(c.el), "C20.content")
         : k \in DOMAIN Calls(w)}
(* ---- C21: the difference; relative to what the callbacks were given before ---- *)
C21(w) ==
  UNION {LET c == Calls(w)[k] cur == SetOf(c.el) IN
         Tag(SetOf(c.inc) = Incoming(st.prev, cur), "C21.incoming") \cup Tag(SetOf(c.out) = Outgoing(st.prev, cur), "C21.outgoing")
         \cup Tag(Once(c.inc) /\ Once(c.out), "C21.once") \cup Tag(Ordered(c.inc) /\ Ordered(c.out), "C21.order")
         \cup Tag(Faithful(c.inc) /\ Faithful(c.out), "C21.content")
         \cup Tag(c.el = Calls(w)[1].el /\ c.inc = Calls(w)[1].inc /\ c.out = Calls(w)[1].out, "C21.callbacks")
         : k \in DOMAIN Calls(w)}
(* ---- C22: windows and outputs ---- *)
C22(w) ==
  Tag(w.end \in Wanted[tid] /\ w.end \notin seen, "C22.window")
  \cup (IF Outd(w) THEN Tag(w.text.outdated /\ SeqSet(w.text.refs) = {w.end, st.ts[1]}, "C22.outdated") \cup Tag(Calls(w) = <<>>, "C22.outdatedcalled")
        ELSE Tag(~w.text.outdated /\ Len(w.map) = 1, "C22.processed"))
  \cup Tag(w.text.pre = R.pre, "C22.prefix") \cup Tag(w.text.suf = R.suf, "C22.suffix")
  \cup Tag(IF R.stamp THEN w.text.stamp = <<w.end>> ELSE w.text.stamp = <<>>, "C22.timestamp")
  \cup (IF ~Outd(w) /\ Fail(w) = "none" /\ w.unmap # <<>> THEN Tag(w.text.body = w.unmap[1].ret, "C22.body") ELSE {})
(* ---- C23: hand-over ---- *)
C23(w) ==
  IF Outd(w) THEN {}
  ELSE UNION {LET c == w.map[k] IN
              (IF st.model = "" THEN Tag(c.empty /\ c.mtype = R.mtype, "C23.initial") ELSE Tag(c.model = st.model, "C23.model"))
              \cup Tag(c.smp = st.smp, "C23.samples") : k \in DOMAIN w.map}
       \cup UNION {LET c == w.solve[k] IN
              Tag(w.map # <<>> /\ c.model = w.map[1].ret, "C23.mapped") \cup Tag(c.smp = st.smp, "C23.samples") \cup Tag(c.solver = R.solver, "C23.solver") : k \in DOMAIN w.solve}
       \cup UNION {LET c == w.unmap[k] IN Tag(w.solve # <<>> /\ c.smp = w.solve[1].ret, "C23.solved") : k \in DOMAIN w.unmap}
       \cup (IF Fail(w) = "none" THEN Tag(Len(w.map) = 1 /\ Len(w.solve) = 1 /\ Len(w.unmap) = 1, "C23.called") ELSE {})
(* ---- C24: faults ---- *)
C24(w) ==
  LET f == Fail(w) IN
  (IF f = "none" THEN {}
   ELSE Tag(w.text.step = f, "C24.step") \cup Tag(w.text.msg, "C24.why")
        \cup Tag(CASE f = "map" -> w.solve = <<>> /\ w.unmap = <<>> /\ Len(w.map) = 1
                   [] f = "solve" -> w.unmap = <<>> /\ Len(w.map) = 1 /\ Len(w.solve) = 1
                   [] OTHER -> Len(w.map) = 1 /\ Len(w.solve) = 1 /\ Len(w.unmap) = 1, "C24.called"))
  \cup (IF hadfault /\ C23(w) # {} THEN {"C24.handover"} ELSE {})
  \cup (IF hadfault /\ (C20(w) \cup C21(w)) # {} THEN {"C24.elements"} ELSE {})
  \cup (IF hadfault /\ ~Outd(w) THEN Tag(Len(w.map) = 1 /\ ~w.text.outdated, "C24.processed") ELSE {})
(* ---- C25: attenuation; rows of the model after mapping and before solving ---- *)
C25(w) ==
  IF R.alg # "attenuation" \/ w.map = <<>> \/ w.solve = <<>> THEN Tag(R.alg = "attenuation" /\ w.map # <<>> => ~w.map[1].ok, "C25.failed")
  ELSE LET a == w.map[1].rows  b == w.solve[1].rows
           keyed == {n \in DOMAIN a : a[n].key}
           lo == Min({a[n].t : n \in keyed})  hi == Max({a[n].t : n \in keyed})
       IN IF DOMAIN a # DOMAIN b \/ w.solve[1].rest # w.map[1].rest THEN {"C25.else"}
          ELSE Tag(\A n \in DOMAIN a : a[n].rest = b[n].rest /\ a[n].key = b[n].key /\ a[n].t = b[n].t, "C25.else")
               \cup Tag(\A n \in DOMAIN a \ keyed : a[n].s = b[n].s, "C25.without")
               \cup (IF keyed = {} \/ lo = hi THEN Tag(\A n \in keyed : a[n].s = b[n].s, "C25.equal")
                     ELSE Tag(\A n \in keyed : a[n].t = hi => b[n].s = One, "C25.newest")
                          \cup Tag(\A n \in keyed : a[n].t = lo => b[n].s = R.min, "C25.oldest")
                          \cup Tag(\A n \in keyed : WantScale(a[n], b[n].s, lo, hi, R.min), "C25.linear"))
(* ---- C26: the maintained problem; weights are in data ---- *)
C26(w) ==
  IF ~R.npp \/ w.solve = <<>> THEN {}
  ELSE LET c == w.solve[1]
           cur == Current(R.alg, st.prev, Content(Times[tid], w.end, R.size), SeqSet(R.keep))
           want == {[p |-> {i, j}, v |-> R.wt[i + 1] * R.wt[j + 1] * R.unit] : <<i, j>> \in {<<i, j>> \in cur \X cur : i < j}}
                   \cup (IF R.linear THEN {[p |-> {i}, v |-> (0 - R.wt[i + 1]) * R.unit] : i \in cur} ELSE {})
           got == {[p |-> SeqSet(c.terms[k].p), v |-> c.terms[k].v] : k \in DOMAIN c.terms}
       IN Tag(got = want /\ Len(c.terms) = Cardinality(got), "C26.problem")
C26f(w) == IF R.npp /\ ~Outd(w) THEN Tag(Fail(w) = "none" /\ Len(w.solve) = 1, "C26.failed") ELSE {}

Verdict(w) == C20(w) \cup C21(w) \cup C22(w) \cup C23(w) \cup C24(w) \cup C25(w) \cup C26(w) \cup C26f(w)

TraceInit == tid \in DOMAIN Runs /\ l = 1 /\ st = [ts |-> None, prev |-> {}, model |-> "", smp |-> ""] /\ seen = {} /\ hadfault = FALSE
Step == /\ l <= Len(R.win)
        /\ LET w == R.win[l]
               tags == Verdict(w)
               cur == IF w.map # <<>> THEN SetOf(w.map[1].el) ELSE st.prev
           IN /\ IF tags # {} THEN PrintT(<<"BAD", R.id, l, "window", tags>>) ELSE TRUE
              /\ st' = IF Outd(w) THEN st
                       ELSE After(st, w.end, cur, IF w.map = <<>> THEN "map" ELSE Fail(w),
                                  IF w.solve # <<>> THEN w.solve[1].left ELSE IF w.map # <<>> THEN w.map[1].ret ELSE "",
                                  IF w.solve # <<>> THEN w.solve[1].ret ELSE "")
              /\ seen' = seen \cup {w.end}
              /\ hadfault' = (hadfault \/ Fail(w) # "none")
        /\ l' = l + 1 /\ tid' = tid
End == /\ l = Len(R.win) + 1 /\ l' = l + 1
       /\ LET tags == Tag(seen = Wanted[tid] /\ R.clean, "C22.outputs") \cup (IF hadfault THEN Tag(seen = Wanted[tid] /\ R.clean, "C24.outputs") ELSE {})
                  \cup (IF R.alg = "attenuation" THEN Tag(seen = Wanted[tid] /\ R.clean, "C25.outputs") ELSE {})
          IN IF tags # {} THEN PrintT(<<"BAD", R.id, l, "end", tags>>) ELSE TRUE
       /\ PrintT(<<"DONE", R.id>>)
       /\ UNCHANGED <<tid, st, seen, hadfault>>
TraceNext == Step \/ End
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
