------------------------------ MODULE ModelMC -------------------------------
(* Exhaustive exploration of the design of Model.tla: from each fixture (a    *)
(* prepared history) every sequence of at most Depth operations of the        *)
(* operation set of one focus.                                                *)
(*  - bad = {}: the design satisfies every requirement clause (Part 2), in    *)
(*    particular the relational ones, and the intended polynomial G;          *)
(*  - Sem: the polynomial calculus is right: energies of ALL assignments.     *)
(* Every transition is printed (focus, fixture, operation numbers); the       *)
(* driver replays these behaviours on the real code, judged by ModelTrace.    *)
EXTENDS Model, Json

CONSTANTS Focus, Depth, Emit

VARIABLES ms, G, hist, fx, bad, sem
mcvars == <<ms, G, hist, fx, bad, sem>>

U == 1024                                     \* coefficient 1.0
UE == 4096                                    \* energy 1.0
N0 == NoAttr
A(k, v) == k :> v

-----------------------------------------------------------------------------
(* Constructors of operations: [op, i, j, a, ok] (ok is filled in later) *)
Op(op, i, j, a) == [op |-> op, i |-> i, j |-> j, a |-> a, ok |-> TRUE]
Int_(op, i, tk, k0, k1, name, hc, c, hs, s, t, at) ==
  Op(op, i, 0, [tk |-> tk, k0 |-> k0, k1 |-> k1, name |-> name, hc |-> hc, c |-> c, hs |-> hs, s |-> s, t |-> t, at |-> at, typ |-> TRUE])
AddL(i, v, name, c, s) == Int_("add", i, "lin", v, "", name, TRUE, c, TRUE, s, 2, N0)
AddQ(i, v, w, name, c, s) == Int_("add", i, "quad", v, w, name, TRUE, c, TRUE, s, 4, N0)
AddLA(i, v, name, t, at) == Int_("add", i, "lin", v, "", name, TRUE, U, FALSE, One, t, at)
UpdTL(i, v, c) == Int_("update", i, "lin", v, "", "", TRUE, c, FALSE, One, 6, N0)
UpdTQ(i, v, w, s) == Int_("update", i, "quad", v, w, "", FALSE, 0, TRUE, s, -1, N0)
UpdN(i, n, c) == Int_("update", i, "none", "", "", n, TRUE, c, FALSE, One, 6, N0)
UpdA(i, n, at) == Int_("update", i, "none", "", "", n, FALSE, 0, FALSE, One, 8, at)
RemL(i, v) == Op("remove", i, 0, [tk |-> "lin", k0 |-> v, k1 |-> "", name |-> ""])
RemQ(i, v, w) == Op("remove", i, 0, [tk |-> "quad", k0 |-> v, k1 |-> w, name |-> ""])
RemN(i, n) == Op("remove", i, 0, [tk |-> "none", k0 |-> "", k1 |-> "", name |-> n])
Offs(i, c) == Op("offset", i, 0, [c |-> c])
Del(i, v) == Op("delete", i, 0, [v |-> v, typ |-> TRUE])
Fix(i, v, val) == Op("fix", i, 0, [v |-> v, val |-> val, typ |-> TRUE])
Phys(i) == Op("phys", i, 0, [x |-> 0])
ToI(i) == Op("ising", i, 0, [x |-> 0])
ToQ(i) == Op("qubo", i, 0, [x |-> 0])
Merge(i, j) == Op("merge", i, j, [x |-> 0])
Copy(i) == Op("copy", i, 0, [how |-> "deep"])
Vars(i, n, sh) == Op("vars", i, 0, [name |-> n, sh |-> sh, typ |-> TRUE])
App(i, n, sh) == Op("append", i, 0, [name |-> n, sh |-> sh, typ |-> TRUE])
Con(kind, v1, v2, n, str) == [kind |-> kind, v1 |-> v1, v2 |-> v2, n |-> n, str |-> str]
AddC(i, l, con) == Op("addcons", i, 0, [label |-> l, con |-> con, typ |-> TRUE])
RemC(i, l) == Op("remcons", i, 0, [label |-> l])
CAdd(i, l, side, vs) == Op("consadd", i, 0, [label |-> l, side |-> side, vs |-> vs, typ |-> TRUE])
CRem(i, l, side, vs) == Op("consrem", i, 0, [label |-> l, side |-> side, vs |-> vs, typ |-> TRUE])

x0 == "x[0]"   x1 == "x[1]"   x2 == "x[2]"   y0 == "y[0]"

-----------------------------------------------------------------------------
(* Fixtures: [mt (types of the models), ops] *)
Decl(i) == <<Vars(i, "x", <<3>>), Vars(i, "y", <<1>>)>>
FxEmpty(mt) == [mt |-> <<mt>>, ops |-> Decl(1)]
FxRich(mt) == [mt |-> <<mt>>, ops |-> Decl(1) \o
   <<AddL(1, x0, "", U, One), AddQ(1, x0, x1, "", 2 * U, 2), AddQ(1, x1, y0, "n", -3 * U, -4), AddL(1, x0, "m", -U, One),
     Offs(1, 3 * UE), AddQ(1, x1, x2, "", U, One), RemQ(1, x1, x2)>>]
FxRefix(mt) == [mt |-> <<mt>>, ops |-> FxRich(mt).ops \o <<Fix(1, x0, 1), Phys(1), AddQ(1, x0, x1, "", U, One)>>]
FxPair(mt, mu) == [mt |-> <<mt, mu>>, ops |-> Decl(1) \o <<Vars(2, "x", <<4>>)>> \o
   <<AddL(1, x0, "", U, 2), AddQ(1, x0, x1, "n", 2 * U, One), AddL(2, x0, "", -U, One), AddQ(2, x0, "x[3]", "n", U, -2), Offs(2, UE),
     AddL(2, x1, "gone", U, One), RemN(2, "gone")>>]
FxCons(mt) == [mt |-> <<mt>>, ops |-> Decl(1) \o
   <<AddL(1, x0, "", U, One), AddQ(1, x0, x1, "", U, One),
     AddC(1, "c", Con("nhot", {x0, x1}, {}, 1, 2 * UE)), AddC(1, "e", Con("eq", {x0}, {x2}, 0, UE))>>]

Both(F(_)) == <<F("ising"), F("qubo")>>
Fixtures ==
  CASE Focus \in {"C01", "C03", "C04", "C12"} -> Both(FxEmpty) \o Both(FxRich)
    [] Focus = "C02" -> Both(FxRich) \o Both(FxCons)
    [] Focus = "C05" -> Both(FxRich) \o Both(FxCons)
    [] Focus = "C06" -> Both(FxRich) \o Both(FxRefix)
    [] Focus = "C07" -> Both(FxRich) \o Both(FxCons)
    [] Focus = "C08" -> <<FxPair("ising", "qubo"), FxPair("qubo", "ising"), FxPair("ising", "ising"), FxPair("qubo", "qubo")>>
    [] Focus = "C09" -> Both(FxEmpty) \o Both(FxCons)
    [] Focus = "C13" -> Both(FxEmpty)
    [] Focus = "C29" -> Both(FxCons)

Ops ==
  CASE Focus = "C01" -> <<AddL(1, x0, "", U, One), AddL(1, x0, "a", -U, One), AddQ(1, x0, x1, "", U, 2), AddQ(1, x0, x1, "b", 2 * U, -1),
                          UpdTL(1, x0, 3 * U), UpdTQ(1, x0, x1, 8), RemL(1, x0), RemQ(1, x0, x1), RemN(1, "a"), Offs(1, -UE), Phys(1),
                          Fix(1, x1, 1), Del(1, x0)>>
    [] Focus = "C02" -> <<RemN(1, "n"), RemL(1, x0), Phys(1), UpdTL(1, x0, 3 * U), AddL(1, x2, "", U, 2), Del(1, x1), RemC(1, "c"), Offs(1, UE)>>
    [] Focus = "C03" -> <<AddL(1, x2, "", U, One), AddL(1, x2, "a", -U, One), AddQ(1, x2, y0, "", U, One), AddQ(1, x1, x2, "b", U, 0), RemN(1, "n"),
                          Del(1, x0), Phys(1), Fix(1, x1, 1), ToI(1), App(1, "x", <<1>>)>>
    [] Focus = "C04" -> <<AddL(1, x0, "", U, One), AddL(1, x0, "n", 2 * U, 2), AddQ(1, x0, x1, "", U, One), AddL(1, x1, x0, -U, One),
                          UpdTL(1, x0, 3 * U), UpdTQ(1, x0, x1, 8), UpdN(1, "n", -U), UpdTL(1, x2, U), RemL(1, x0), RemQ(1, x0, x1), RemN(1, "n"), Phys(1)>>
    [] Focus = "C05" -> <<ToI(1), ToQ(1), AddQ(1, x1, x2, "q", 4 * U, 2), AddL(1, x2, "", 4 * U, -4), RemN(1, "n"), Offs(1, UE), Phys(1), Fix(1, x1, 1), Del(1, x0)>>
    [] Focus = "C06" -> <<Fix(1, x0, 1), Fix(1, x0, -1), Fix(1, x0, 0), Fix(1, x1, 1), Fix(1, x1, -1), Fix(1, x1, 0), Fix(1, y0, 1), Fix(1, x2, 1),
                          AddQ(1, x0, x1, "again", U, One), RemN(1, "n"), Phys(1), ToI(1), ToQ(1)>>
    [] Focus = "C07" -> <<Del(1, x0), Del(1, x1), Del(1, y0), Del(1, x2), AddL(1, x0, "again", U, One), AddC(1, "z", Con("zoh", {x0, x1}, {}, 0, UE)),
                          CAdd(1, "c", 1, {x2}), Phys(1), ToI(1), ToQ(1), Fix(1, x1, 1)>>
    [] Focus = "C08" -> <<Merge(1, 2), Merge(2, 1), AddL(1, x1, "", U, One), AddL(2, x1, "k", 4 * U, One), AddC(1, "c", Con("nhot", {x0, x1}, {}, 1, 4 * UE)),
                          AddC(2, "c", Con("zoh", {x0, x1}, {}, 0, 4 * UE)), Fix(2, x0, 1), Del(2, x0), Phys(1), RemN(1, "n"), App(1, "x", <<2>>)>>
    [] Focus = "C09" -> <<AddC(1, "c", Con("nhot", {x0, x1, x2}, {}, 2, UE)), AddC(1, "c", Con("zoh", {x0, y0}, {}, 0, 4 * UE)),
                          AddC(1, "d", Con("eq", {x0, x1}, {y0}, 0, 2 * UE)), RemC(1, "c"), CAdd(1, "c", 1, {x2, y0}), CRem(1, "c", 1, {x0}),
                          CRem(1, "c", 1, {x0, x2}), CAdd(1, "d", 2, {x2}), CRem(1, "d", 1, {x1}), Phys(1), ToI(1), ToQ(1)>>
    [] Focus = "C12" -> <<AddLA(1, x0, "", 2, A("a", 2)), AddLA(1, x1, "", -1, N0), AddLA(1, x2, "n", 4, A("b", 6)), UpdA(1, "x[1]", A("a", 4)), UpdA(1, "x[0]", A("b", 8)),
                          RemL(1, x0), Phys(1), ToI(1), ToQ(1), Del(1, x1)>>
    [] Focus = "C13" -> <<App(1, "x", <<1>>), App(1, "x", <<0>>), App(1, "z", <<2, 1>>), App(1, "z", <<1, 2>>), Vars(1, "w", <<1, 2, 1>>), Del(1, x0), Fix(1, x0, 1), Fix(1, x1, 1),
                          Del(1, y0), AddL(1, x1, "", U, One), ToI(1), ToQ(1)>>
    [] Focus = "C29" -> <<Copy(1), Copy(2), Phys(1), Phys(2), UpdTL(1, x0, 3 * U), UpdTL(2, x0, -U), UpdA(1, "x[0]", A("a", 2)), UpdA(2, "x[0]", A("a", 4)), RemQ(2, x0, x1), Del(1, x2), Del(2, x0),
                          CAdd(1, "c", 1, {x2}), CRem(2, "c", 1, {x1}), Fix(1, y0, 1), Offs(2, UE), App(2, "x", <<1>>), ToI(1), ToQ(2), Merge(2, 1)>>

-----------------------------------------------------------------------------
(* The design step *)
Enabled(e, mods) ==
  IF e.i > Len(mods) \/ e.j > Len(mods) THEN FALSE ELSE
  CASE e.op \in {"consadd", "consrem"} -> e.a.label \in DOMAIN mods[e.i].cons
         /\ (e.op = "consadd" => LET k == mods[e.i].cons[e.a.label] IN k.kind = "eq" => e.a.vs \cap (IF e.a.side = 1 THEN k.v2 ELSE k.v1) = {})
         /\ (e.a.side = 2 => mods[e.i].cons[e.a.label].kind = "eq")
    [] e.op \in {"ising", "qubo"} -> mods[e.i].mtype = e.op \/ (ConvExact(TPoly(mods[e.i]), mods[e.i].mtype)
                                       /\ \A k \in DOMAIN mods[e.i].rows : mods[e.i].rows[k].c % 16 = 0)
    [] e.op = "copy" -> Len(mods) < 3
    [] e.op = "merge" -> mods[e.i].mtype = mods[e.j].mtype \/ ConvExact(TPoly(mods[e.j]), mods[e.j].mtype)
    [] e.op = "append" -> e.a.name \in DOMAIN mods[e.i].vars => Len(mods[e.i].vars[e.a.name]) = Len(e.a.sh)
    [] OTHER -> TRUE

Design(e, mods, l) ==                         \* [ok, ps]
  LET a == e.a m == mods[e.i] now == NowT(l)
      one(r) == [ok |-> r.ok, ps |-> [mods EXCEPT ![e.i] = r.st]]
  IN CASE e.op = "vars" -> one(VariablesOp(m, a))
       [] e.op = "append" -> one(AppendOp(m, a))
       [] e.op = "add" -> one(AddOp(m, a, now))
       [] e.op = "update" -> one(UpdateOp(m, a, now))
       [] e.op = "remove" -> one(RemoveOp(m, a))
       [] e.op = "offset" -> one(OffsetOp(m, a))
       [] e.op = "delete" -> one(DeleteOp(m, a))
       [] e.op = "fix" -> one(FixOp(m, a, now))
       [] e.op = "addcons" -> one(AddConsOp(m, a))
       [] e.op = "remcons" -> one(RemConsOp(m, a))
       [] e.op = "consadd" -> one(ConsAddOp(m, a))
       [] e.op = "consrem" -> one(ConsRemOp(m, a))
       [] e.op \in {"ising", "qubo"} -> one(ConvertOp(m, e.op, now))
       [] e.op = "phys" -> one(PhysOp(m))
       [] e.op = "copy" -> [ok |-> TRUE, ps |-> CopyOp(mods, e.i)]
       [] e.op = "merge" -> LET r == MergeOp(m, mods[e.j], now) IN [ok |-> r.ok, ps |-> [mods EXCEPT ![e.i] = r.st, ![e.j] = r.other]]

(* Energies of all assignments of the variables involved *)
Vs(P) == PVars(P)
Assigns(V, mt) == [V -> Domain(mt)]
ToSpin(x) == [v \in DOMAIN x |-> 2 * x[v] - 1]
Sem(e, mods, ps) ==
  LET pre == mods[e.i] post == ps[e.i]
      P == TPoly(pre) Q == TPoly(post)
      V == Vs(P) \cup Vs(Q)
  IN CASE e.op = "fix" /\ e.ok -> \A x \in Assigns(V \cup {e.a.v}, pre.mtype) : Eval(Q, x) = Eval(P, [x EXCEPT ![e.a.v] = e.a.val])
       [] e.op = "delete" /\ e.ok /\ pre.mtype = "qubo" -> \A x \in Assigns(V \cup {e.a.v}, pre.mtype) : Eval(Q, x) = Eval(P, [x EXCEPT ![e.a.v] = 0])
       [] e.op = "ising" /\ pre.mtype = "qubo" -> \E d \in {Q[m] : m \in DOMAIN Q} \cup {0} \cup {Eval(Q, [v \in V |-> 1]) - Eval(P, [v \in V |-> 1])} :
              \A x \in Assigns(V, "qubo") : Eval(Q, ToSpin(x)) - Eval(P, x) = Eval(Q, [v \in V |-> 1]) - Eval(P, [v \in V |-> 1])
       [] e.op = "qubo" /\ pre.mtype = "ising" ->
              \A x \in Assigns(V, "qubo") : Eval(Q, x) - Eval(P, ToSpin(x)) = Eval(Q, [v \in V |-> 1]) - Eval(P, [v \in V |-> 1])
       [] e.op \in {"addcons", "consadd", "consrem"} /\ e.ok ->
              LET k == post.cons[e.a.label]
                  cost(x) == LET ones(S) == Cardinality({v \in S : x[v] = 1}) IN
                             k.str * (CASE k.kind = "nhot" -> (ones(k.v1) - k.n) * (ones(k.v1) - k.n)
                                        [] k.kind = "eq" -> (ones(k.v1) - ones(k.v2)) * (ones(k.v1) - ones(k.v2))
                                        [] k.kind = "zoh" -> ones(k.v1) * (ones(k.v1) - 1))
                  W == ConsVars(k)
                  z == [v \in W |-> 0]
              IN \A x \in Assigns(W, "qubo") :
                   /\ Eval(PenQubo(k), x) - Eval(PenQubo(k), z) = cost(x) - cost(z)
                   /\ Eval(Pen(k, "ising"), ToSpin(x)) - Eval(Pen(k, "ising"), ToSpin(z)) = cost(x) - cost(z)
       [] OTHER -> TRUE

Apply(st, e) ==                               \* st: [ms, G, bad, sem, n]
  LET d == Design(e, st.ms, st.n + 1)
      ev == [e EXCEPT !.ok = d.ok] @@ ("now" :> NowT(st.n + 1))
      gs == GAll(ev, st.ms, d.ps, st.G)
      tags == JudgeOp(ev, st.ms, d.ps, st.n + 1, FALSE)
              \cup UNION {If(gs[k] = TPoly(d.ps[k]), "C01.intended") : k \in DOMAIN d.ps}
              \cup UNION {If(UniqueNames(d.ps[k]), "C04.names") : k \in DOMAIN d.ps}
  IN [ms |-> d.ps, G |-> gs, bad |-> st.bad \cup tags, sem |-> st.sem /\ Sem(ev, st.ms, d.ps), n |-> st.n + 1]

Start(f) == FoldLeft(Apply, [ms |-> [k \in DOMAIN f.mt |-> EmptyModel(f.mt[k])], G |-> [k \in DOMAIN f.mt |-> ZeroPoly], bad |-> {}, sem |-> TRUE, n |-> Len(f.mt)], f.ops)

MCInit == /\ fx \in DOMAIN Fixtures
          /\ LET s == Start(Fixtures[fx]) IN ms = s.ms /\ G = s.G /\ bad = s.bad /\ sem = s.sem
          /\ hist = <<>>

MCNext == /\ Len(hist) < Depth
          /\ \E k \in DOMAIN Ops :
               /\ Enabled(Ops[k], ms)
               /\ LET s == Apply([ms |-> ms, G |-> G, bad |-> bad, sem |-> sem, n |-> Len(Fixtures[fx].mt) + Len(Fixtures[fx].ops) + Len(hist)], Ops[k])
                  IN ms' = s.ms /\ G' = s.G /\ bad' = s.bad /\ sem' = s.sem
               /\ hist' = Append(hist, k)
               /\ UNCHANGED fx
               /\ Emit => PrintT(<<"PLAN", fx, hist'>>)

MCSpec == MCInit /\ [][MCNext]_mcvars

Tables == PrintT(<<"TABLES", ToJson([fixtures |-> Fixtures, ops |-> Ops])>>)
ASSUME Emit => Tables

View == <<fx, ms, Len(hist), bad, sem>>
Requirements == bad = {}
Semantics == sem
=============================================================================
