----------------------------- MODULE ModelTrace -----------------------------
(* Checks recorded executions of the real sawatabi code against Model.        *)
(* The trace file holds many executions; each is followed independently       *)
(* (tid).  Every recorded call is judged by the requirements of Model; the    *)
(* verdict is total: violated clauses are printed and the execution is        *)
(* followed on from the recorded state.                                       *)
EXTENDS Model, Json, IOUtils

Raw == JsonDeserialize(IOEnv.TRACE)
Tab == Raw.rowtab
Traces == Raw.traces

VARIABLES tid, l, ms, G, held
vars == <<tid, l, ms, G, held>>

SetOf(s) == {s[i] : i \in DOMAIN s}
Con(k) == [kind |-> k.kind, v1 |-> SetOf(k.v1), v2 |-> SetOf(k.v2), n |-> k.n, str |-> k.str]
St(x) == [mtype |-> x.mtype, vars |-> x.vars, rows |-> [i \in DOMAIN x.rows |-> Tab[x.rows[i]]], off |-> x.off,
          cons |-> [c \in DOMAIN x.cons |-> Con(x.cons[c])], del |-> SetOf(x.del), fix |-> SetOf(x.fix)]

(* observed state of model i after event e *)
Upd(e, i) == {u \in DOMAIN e.sts : e.sts[u].i = i}
Post(e, i) == IF Upd(e, i) = {} THEN ms[i] ELSE St(e.sts[CHOOSE u \in Upd(e, i) : TRUE].st)

Args(e) == IF e.op = "addcons" THEN [e.a EXCEPT !.con = Con(@)]
           ELSE IF e.op \in {"consadd", "consrem"} THEN [e.a EXCEPT !.vs = SetOf(@)]
           ELSE e.a

Sym == Traces[tid].sym

Frame(e) == LET bad == ({e.sts[u].i : u \in DOMAIN e.sts} \ {e.i, e.j}) \cap DOMAIN ms
            IN IF \E i \in bad : ~SameState(ms[i], Post(e, i)) THEN {Prop(e.op) \o ".othermodel", "C08.othermodel", "C29.othermodel"} ELSE {}

States(e) == UNION {JState(St(e.sts[u].st), e.sts[u].x) : u \in DOMAIN e.sts}
Uniq(e) == IF \A u \in DOMAIN e.sts : UniqueNames(St(e.sts[u].st)) THEN {} ELSE {"C04.names", Prop(e.op) \o ".names"}

(* physical model created after the event from a copy, or by the event itself *)
Peek(e, post, g) ==
  UNION {LET ph == e.pk[k] IN
         IF ph.ok THEN JEnergy(post, g, ph, Sym) \cup JIndex(ph)
         ELSE {"C01.rejected", "C02.rejected"} \cup (IF DOMAIN post.cons # {} THEN {"C09.rejected"} ELSE {}) \cup (IF Sym THEN {"C10.rejected"} ELSE {})
         : k \in DOMAIN e.pk}

(* K06: a fixed variable that is still free in a constraint *)
Known(e, pre, post) ==
  (IF e.op \in {"ising", "qubo"} /\ KConvert(pre, e.op, post, e.ok) THEN {"K05"} ELSE {})
  \cup (IF e.op = "fix" /\ e.ok /\ FixedInCons(post, e.a.v) THEN {"K06"} ELSE {})

Say(e, tags, kn) == /\ IF tags # {} THEN PrintT(<<"BAD", Traces[tid].id, l, e.op, tags>>) ELSE TRUE
                    /\ IF kn # {} THEN PrintT(<<"KNOWN", Traces[tid].id, l, e.op, kn>>) ELSE TRUE

End == Len(Traces[tid].ev) + 1

TraceInit == /\ tid \in DOMAIN Traces
             /\ l = 1 /\ ms = <<>> /\ G = <<>> /\ held = <<>>

StepNew(e) ==
  /\ e.op = "new"
  /\ LET post == St(e.sts[1].st)
         tags == If(SameState(post, EmptyModel(e.a.mtype)), "C13.new") \cup States(e)
     IN /\ Say(e, tags, {})
        /\ ms' = Append(ms, post)
        /\ G' = Append(G, TPoly(post))
        /\ l' = l + 1 /\ UNCHANGED held

Ev(e) == [op |-> e.op, i |-> e.i, j |-> e.j, a |-> Args(e), ok |-> e.ok, now |-> e.now]
Copied(e) == e.op = "copy" /\ e.ok
Posts(e) == [k \in 1..(Len(ms) + (IF Copied(e) THEN 1 ELSE 0)) |-> Post(e, k)]
Apart(e, ps) == JHeld(held, e.hr, e.peq) \cup JEqual(ps, e.eq) \cup If(e.args, "C29.arguments")
                \cup (IF Copied(e) THEN JCopied(Len(ps), e.i, e.a.how, e.eq) ELSE {})

Step(e) ==
  /\ e.op # "new"
  /\ e.num = <<>>
  /\ Judgeable(e, ms, G)
  /\ LET pre == ms[e.i]
         ps == Posts(e)
         ev == Ev(e)
         gs == GAll(ev, ms, ps, G)
         pk == Peek(e, ps[e.i], gs[e.i])
         \* the physical model is wrong directly after the call, whatever the table says
         own == IF pk # {} /\ e.op # "phys" THEN {Prop(e.op) \o ".physical"} ELSE {}
         tags == JudgeOp(ev, ms, ps, l, Sym) \cup Frame(e) \cup States(e) \cup Uniq(e) \cup pk \cup own \cup Apart(e, ps)
     IN /\ Say(e, tags, Known(e, pre, ps[e.i]))
        /\ ms' = ps
        /\ G' = IF tags # {} THEN [k \in DOMAIN ps |-> TPoly(ps[k])] ELSE gs
        /\ held' = e.hr
        /\ l' = l + 1

(* A recorded number that is not a multiple of the unit, or an unreadable table *)
StepOdd(e) ==
  /\ e.op # "new"
  /\ e.num # <<>>
  /\ Say(e, UNION {{Prop(e.op) \o ".value", e.num[k] \o ".value"} : k \in DOMAIN e.num}, {})
  /\ l' = End /\ UNCHANGED <<ms, G, held>>

(* Arithmetic of the units not exact: the rest of this execution is not judged *)
StepSkip(e) ==
  /\ e.op # "new"
  /\ e.num = <<>> /\ ~Judgeable(e, ms, G)
  /\ PrintT(<<"SKIP", Traces[tid].id, l>>)
  /\ l' = End /\ UNCHANGED <<ms, G, held>>

TraceNext == /\ l < End
             /\ LET e == Traces[tid].ev[l] IN StepNew(e) \/ Step(e) \/ StepOdd(e) \/ StepSkip(e)
             /\ UNCHANGED tid
             /\ (l' = End => PrintT(<<"DONE", Traces[tid].id>>))

TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
