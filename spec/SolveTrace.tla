----------------------------- MODULE SolveTrace -----------------------------
(* Recorded solves against Solve.  One run is one problem and a sequence of   *)
(* calls:                                                                     *)
(*  [op "solve", kind, ok, reads, ans, first, net]  with, for the remote      *)
(*  solver, call, net (the requests the server received), idx, reply, info    *)
(*  [op "reject", what, raised, net]  a call that must be refused             *)
EXTENDS Solve, Json, IOUtils

Runs == JsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l
vars == <<tid, l>>
PolyOf(r) == FromTerms([j \in DOMAIN r.poly |-> <<{r.poly[j].m[q] : q \in DOMAIN r.poly[j].m}, r.poly[j].v>>])
Polys == [i \in DOMAIN Runs |-> PolyOf(Runs[i])]

AnswerTags(P, mtype, e) ==
  IF ~VarsOK(P, e.ans) THEN {"C14.variables"}
  ELSE Tag(DomOK(mtype, e.ans), "C14.domain") \cup Tag(EnergyOK(P, e.ans), "C14.energy") \cup Tag(Reads(e.ans) = e.reads, "C14.reads")
ExactTags(P, mtype, e) ==
  IF ~VarsOK(P, e.ans) \/ ~DomOK(mtype, e.ans) THEN {"C15.variables"}
  ELSE LET once == EveryOnce(P, e.ans)
           true == EnergyOK(P, e.ans)
           small == Cardinality(PVars(P)) <= 9
       IN Tag(once, "C15.everyonce") \cup Tag(true, "C15.energy")
       \cup (IF DOMAIN e.first.s = PVars(P)
             THEN Tag(e.first.e = Eval(P, e.first.s) /\ (IF small THEN FirstIsMin(P, mtype, e.first) ELSE (once /\ true) => FirstIsMinOf(e.ans, e.first)), "C15.first")
             ELSE {"C15.first"})
RequestTags(P, e) ==
  IF Len(e.net) # 1 THEN {"C19.count"}
  ELSE LET q == e.net[1] IN
       Tag(q.target = e.call.target /\ q.token = e.call.token, "C19.target")
       \cup Tag(q.steps = e.call.steps /\ q.timeout = e.call.timeout /\ q.dup = e.call.dup, "C19.options")
       \cup Tag(q.ce = q.gz, "C19.compression") \cup Tag(q.gz = e.call.gzreq, "C19.options")
       \cup Tag(e.call.gzresp => q.acc, "C19.options")
       \cup (IF DOMAIN e.idx = PVars(P) /\ Dense(e.idx) THEN Tag(WirePoly(q.poly) = IdxPoly(P, e.idx), "C19.polynomial") ELSE {"C19.polynomial"})
ReplyTags(P, e) ==
  IF e.reply.status # 200 THEN Tag(~e.ok, "C19.status")
  ELSE IF ~e.ok THEN {"C19.raised"}
  ELSE Tag(e.info, "C19.info")
       \cup (IF DOMAIN e.idx = PVars(P) /\ VarsOK(P, e.ans)
             THEN Tag(AnsBag(e.ans) = ReplyBag(P, e.idx, e.reply.rows, e.reply.es), "C19.answer") \cup Tag(Aggregated(e.ans), "C19.aggregated")
             ELSE {"C19.answer"})
Tags(P, mtype, e) ==
  IF e.op = "reject" THEN Tag(e.raised, "C14.accepted") \cup Tag(e.raised, "C19.accepted") \cup Tag(e.net = <<>>, "C19.sent")
  ELSE (IF e.kind = "remote" THEN RequestTags(P, e) \cup ReplyTags(P, e) ELSE {})
       \cup (IF e.ok THEN AnswerTags(P, mtype, e) \cup (IF e.kind = "exact" THEN ExactTags(P, mtype, e) ELSE {})
             ELSE IF e.kind = "remote" /\ e.reply.status # 200 THEN {} ELSE {"C14.raised", "C15.raised", "C19.raised"})

TraceInit == tid \in DOMAIN Runs /\ l = 1
TraceNext == /\ l <= Len(Runs[tid].ev)
             /\ LET e == Runs[tid].ev[l]
                    tags == Tags(Polys[tid], Runs[tid].mtype, e)
                IN IF tags # {} THEN PrintT(<<"BAD", Runs[tid].id, l, e.op, tags>>) ELSE TRUE
             /\ l' = l + 1 /\ tid' = tid
             /\ (l' > Len(Runs[tid].ev) => PrintT(<<"DONE", Runs[tid].id>>))
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
