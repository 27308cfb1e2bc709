------------------------------- MODULE Model --------------------------------
(* The logical model of sawatabi as a state machine.                         *)
(*                                                                           *)
(* A model state is a record                                                 *)
(*   mtype  "ising" | "qubo"                                                 *)
(*   vars   function: array name -> shape (sequence of Int)                  *)
(*   rows   sequence of interactions                                         *)
(*          [name, b (1|2), k0, k1 ("" if b = 1), c (coefficient), s (scale),*)
(*           t (timestamp), d (change pending), r (removed),                 *)
(*           a (function: attribute key -> Int)]                             *)
(*   off    offset                                                           *)
(*   cons   function: label -> [kind, v1, v2, n, str]                        *)
(*   del, fix   sets of labels                                               *)
(* Coefficients are integers in units of UC, scales in units of US, offsets  *)
(* and energies in units of UC*US; One is a scale of 1.0.                    *)
(*                                                                           *)
(* Part 1: the design - deterministic operations on model states.            *)
(* Part 2: the requirements - for an operation with its arguments, a state   *)
(*   before and after and the outcome, the set of violated clauses.  They    *)
(*   are relational where the representation is free (names of derived       *)
(*   interactions, how a substituted coupling is stored, table order).       *)
(* ModelMC checks the design against the requirements exhaustively;          *)
(* ModelTrace checks recorded executions of the real code against them.      *)
EXTENDS Poly

CONSTANT One                                  \* a scale of 1.0

NoAttr == [k \in {} |-> 0]
NowT(l) == 1000000 + l                        \* "the time of call number l"

EmptyModel(mt) == [mtype |-> mt, vars |-> [k \in {} |-> <<>>], rows |-> <<>>, off |-> 0,
                   cons |-> [k \in {} |-> 0], del |-> {}, fix |-> {}]


-----------------------------------------------------------------------------
(* Derived notions *)

Mono(r) == IF r.b = 1 THEN {r.k0} ELSE {r.k0, r.k1}
Term(r) == <<Mono(r), 0 - r.c * r.s>>         \* H = - sum c*s*x..
TermP(r) == PTerm(Mono(r), 0 - r.c * r.s)
IsLive(r) == ~r.r
Live(m) == SelectSeq(m.rows, IsLive)
LiveTerms(m) == LET lv == Live(m) IN [i \in DOMAIN lv |-> Term(lv[i])]
TPoly(m) == FromTerms(LiveTerms(m) \o << <<Const, m.off>> >>)
Names(m) == {m.rows[i].name : i \in DOMAIN m.rows}
HasName(m, n) == \E i \in DOMAIN m.rows : m.rows[i].name = n
IdxOf(m, n) == CHOOSE i \in DOMAIN m.rows : m.rows[i].name = n /\ \A j \in DOMAIN m.rows : m.rows[j].name = n => i <= j
UniqueNames(m) == Cardinality(Names(m)) = Len(m.rows)
Touches(r, v) == r.k0 = v \/ r.k1 = v
DefaultName(k0, k1) == IF k1 = "" THEN k0 ELSE k0 \o "*" \o k1

(* Penalty of a constraint, in the binary basis, without its constant:        *)
(*   n-hot  str*(k-n)^2,  equality  str*(k1-k2)^2,  0-or-1-hot  str*k*(k-1)    *)
Ones(S) == LET q == SetToSeq(S) IN [i \in DOMAIN q |-> [v |-> q[i], c |-> 1]]
MinusOnes(S) == LET q == SetToSeq(S) IN [i \in DOMAIN q |-> [v |-> q[i], c |-> -1]]
PenQubo(k) ==
  NoConst(PScale(
    CASE k.kind = "nhot" -> LinSquare(Ones(k.v1), 0 - k.n, "qubo")
      [] k.kind = "eq"   -> LinSquare(Ones(k.v1) \o MinusOnes(k.v2), 0, "qubo")
      [] k.kind = "zoh"  -> PSub(LinSquare(Ones(k.v1), 0, "qubo"), FromTerms([i \in DOMAIN Ones(k.v1) |-> <<{Ones(k.v1)[i].v}, 1>>])),
    k.str))
Pen(k, mt) == IF mt = "qubo" THEN PenQubo(k) ELSE NoConst(Conv(PenQubo(k), "qubo"))
PenAll(m) == LET q == SetToSeq(DOMAIN m.cons) IN PSum([i \in DOMAIN q |-> Pen(m.cons[q[i]], m.mtype)])
ConsVars(k) == k.v1 \cup k.v2
AllConsVars(m) == UNION {ConsVars(m.cons[x]) : x \in DOMAIN m.cons}

(* The problem a model stands for: interactions, offset and constraints.      *)
Energy(m) == PAdd(TPoly(m), PenAll(m))

RECURSIVE Prod(_)
Prod(sh) == IF sh = <<>> THEN 1 ELSE Head(sh) * Prod(Tail(sh))
AllSize(m) == FoldSet(LAMBDA n, acc : acc + Prod(m.vars[n]), 0, DOMAIN m.vars)
AliveSize(m) == AllSize(m) - Cardinality(m.del \cup m.fix)
RECURSIVE Labels(_, _)
Labels(pre, sh) == IF sh = <<>> THEN {pre}
                   ELSE UNION {Labels(pre \o "[" \o ToString(i) \o "]", Tail(sh)) : i \in 0..(Head(sh) - 1)}

-----------------------------------------------------------------------------
(* Part 1: the design.  Each operation returns [ok, st].                      *)

Ok(m) == [ok |-> TRUE, st |-> m]
Err(m) == [ok |-> FALSE, st |-> m]

VariablesOp(m, a) ==                          \* a: name, sh (shape), typ (well typed)
  IF ~a.typ THEN Err(m) ELSE Ok([m EXCEPT !.vars = (a.name :> a.sh) @@ @])
AppendOp(m, a) ==
  IF ~a.typ THEN Err(m)
  ELSE IF a.name \notin DOMAIN m.vars THEN VariablesOp(m, a)
  ELSE Ok([m EXCEPT !.vars[a.name] = [i \in DOMAIN @ |-> @[i] + a.sh[i]]])

(* a: tk (target kind "lin","quad","self","junk","none"), k0, k1, name, c, s, t (-1: not given), at, typ *)
AddOp(m, a, now) ==
  LET nm == IF a.name # "" THEN a.name ELSE DefaultName(a.k0, a.k1)
      row == [name |-> nm, b |-> IF a.tk = "lin" THEN 1 ELSE 2, k0 |-> a.k0, k1 |-> a.k1, c |-> a.c, s |-> a.s,
              t |-> IF a.t = -1 THEN now ELSE a.t, d |-> TRUE, r |-> FALSE, a |-> a.at]
  IN IF a.tk \notin {"lin", "quad"} \/ ~a.typ \/ HasName(m, nm) THEN Err(m)
     ELSE Ok([m EXCEPT !.rows = Append(@, row)])

(* a: additionally hc, hs (coefficient/scale given) *)
UpdateOp(m, a, now) ==
  LET byname == a.name # ""
      hast == a.tk # "none"
      nm == IF byname THEN a.name ELSE DefaultName(a.k0, a.k1)
      i == IdxOf(m, nm)
  IN IF byname = hast \/ ~a.typ THEN Err(m)
     ELSE IF hast /\ a.tk \notin {"lin", "quad"} THEN Err(m)
     ELSE IF ~HasName(m, nm) THEN
        IF byname THEN Err(m)
        ELSE AddOp(m, [a EXCEPT !.c = IF a.hc THEN a.c ELSE 0, !.s = IF a.hs THEN a.s ELSE One], now)
     ELSE IF m.rows[i].r THEN Err(m)
     ELSE Ok([m EXCEPT !.rows[i] = [@ EXCEPT !.c = IF a.hc THEN a.c ELSE @, !.s = IF a.hs THEN a.s ELSE @,
                                             !.t = IF a.t = -1 THEN now ELSE a.t, !.d = TRUE,
                                             !.a = a.at @@ @]])

RemoveOp(m, a) ==
  LET byname == a.name # ""
      hast == a.tk # "none"
      nm == IF byname THEN a.name ELSE DefaultName(a.k0, a.k1)
  IN IF byname = hast \/ (hast /\ a.tk \notin {"lin", "quad"}) \/ ~HasName(m, nm) THEN Err(m)
     ELSE Ok([m EXCEPT !.rows[IdxOf(m, nm)] = [@ EXCEPT !.r = TRUE, !.d = TRUE]])

OffsetOp(m, a) == Ok([m EXCEPT !.off = a.c])

WithoutVar(k, v) == [k EXCEPT !.v1 = @ \ {v}, !.v2 = @ \ {v}]
DeleteOp(m, a) ==
  IF ~a.typ THEN Err(m) ELSE
  Ok([m EXCEPT !.del = @ \cup {a.v},
               !.cons = [x \in DOMAIN @ |-> WithoutVar(@[x], a.v)],
               !.rows = [i \in DOMAIN @ |-> IF Touches(@[i], a.v) THEN [@[i] EXCEPT !.r = TRUE, !.d = TRUE] ELSE @[i]]])

Domain(mt) == IF mt = "ising" THEN {-1, 1} ELSE {0, 1}
RECURSIVE Fresh(_, _)
Fresh(nm, used) == IF nm \in used THEN Fresh(nm \o "'", used) ELSE nm
FixOp(m, a, now) ==
  LET hit == SelectSeq(Live(m), LAMBDA r : Touches(r, a.v))
      quad == IF a.val = 0 THEN <<>> ELSE SelectSeq(hit, LAMBDA r : r.b = 2)
      other(r) == IF r.k0 = a.v THEN r.k1 ELSE r.k0
      new == [i \in DOMAIN quad |->
                LET r == quad[i] IN
                [name |-> other(r) \o " (before fixed: " \o r.name \o ")", b |-> 1, k0 |-> other(r), k1 |-> "",
                 c |-> (a.val * r.c * r.s) \div One, s |-> One, t |-> now, d |-> TRUE, r |-> FALSE, a |-> NoAttr]]
      named == FoldLeft(LAMBDA acc, r : Append(acc, [r EXCEPT !.name = Fresh(@, Names(m) \cup {acc[j].name : j \in DOMAIN acc})]), <<>>, new)
      add == SumInts([i \in DOMAIN hit |-> IF hit[i].b = 1 THEN 0 - a.val * hit[i].c * hit[i].s ELSE 0])
  IN IF ~a.typ \/ a.val \notin Domain(m.mtype) THEN Err(m)
     ELSE Ok([m EXCEPT !.fix = @ \cup {a.v}, !.off = @ + add,
                       !.rows = [i \in DOMAIN @ |-> IF Touches(@[i], a.v) /\ ~@[i].r THEN [@[i] EXCEPT !.r = TRUE, !.d = TRUE] ELSE @[i]] \o named])

AddConsOp(m, a) == IF ~a.typ THEN Err(m) ELSE Ok([m EXCEPT !.cons = (a.label :> a.con) @@ @])
RemConsOp(m, a) == IF a.label \notin DOMAIN m.cons THEN Err(m)
                   ELSE Ok([m EXCEPT !.cons = [x \in DOMAIN @ \ {a.label} |-> @[x]]])
(* a: label, side (1|2), vs (set of labels) *)
ConsAddOp(m, a) == IF ~a.typ THEN Err(m)
                   ELSE IF a.side = 1 THEN Ok([m EXCEPT !.cons[a.label].v1 = @ \cup a.vs])
                   ELSE Ok([m EXCEPT !.cons[a.label].v2 = @ \cup a.vs])
ConsRemOp(m, a) ==
  LET cur == IF a.side = 1 THEN m.cons[a.label].v1 ELSE m.cons[a.label].v2 IN
  IF ~a.typ \/ ~(a.vs \subseteq cur) THEN Err(m)
  ELSE IF a.side = 1 THEN Ok([m EXCEPT !.cons[a.label].v1 = @ \ a.vs])
  ELSE Ok([m EXCEPT !.cons[a.label].v2 = @ \ a.vs])

Other(mt) == IF mt = "ising" THEN "qubo" ELSE "ising"
(* The design converts row by row; the sign of the offset change is the one   *)
(* the implementation (and its tests) have: see DESIGN.md, finding K05.       *)
ConvRow(r, mt) == IF mt = "qubo" THEN [r EXCEPT !.c = IF r.b = 1 THEN @ \div 2 ELSE @ \div 4, !.d = TRUE]
                  ELSE [r EXCEPT !.c = IF r.b = 1 THEN @ * 2 ELSE @ * 4, !.d = TRUE]
ConvExtra(r, k, mt, now) ==
  [name |-> k \o " from " \o r.name \o " (" \o ToString(now) \o ")", b |-> 1, k0 |-> k, k1 |-> "",
   c |-> IF mt = "qubo" THEN r.c \div 4 ELSE -2 * r.c, s |-> r.s, t |-> now, d |-> TRUE, r |-> FALSE, a |-> NoAttr]
ConvOff(r, mt) == IF mt = "qubo" THEN (IF r.b = 1 THEN (r.c * r.s) \div 2 ELSE (r.c * r.s) \div 4)
                  ELSE (IF r.b = 1 THEN 0 - r.c * r.s ELSE r.c * r.s)
ConvertOp(m, to, now) ==
  IF m.mtype = to THEN Ok(m)
  ELSE LET lv == Live(m)
           quads == SelectSeq(lv, LAMBDA r : r.b = 2)
           extra == FlattenSeq([i \in DOMAIN quads |-> <<ConvExtra(quads[i], quads[i].k0, m.mtype, now),
                                                         ConvExtra(quads[i], quads[i].k1, m.mtype, now)>>])
           named == FoldLeft(LAMBDA acc, r : Append(acc, [r EXCEPT !.name = Fresh(@, Names(m) \cup {acc[j].name : j \in DOMAIN acc})]), <<>>, extra)
       IN Ok([m EXCEPT !.mtype = to,
                       !.rows = [i \in DOMAIN @ |-> IF @[i].r THEN @[i] ELSE ConvRow(@[i], m.mtype)] \o named,
                       !.off = @ + SumInts([i \in DOMAIN lv |-> ConvOff(lv[i], m.mtype)])])

ShapeMax(x, y) == [i \in DOMAIN x |-> IF x[i] >= y[i] THEN x[i] ELSE y[i]]
MergeVars(v, w) == [n \in DOMAIN v \cup DOMAIN w |->
                      IF n \notin DOMAIN w THEN v[n] ELSE IF n \notin DOMAIN v THEN w[n] ELSE ShapeMax(v[n], w[n])]
MergeRejected(m, o) ==
  \/ \E n \in DOMAIN m.vars \cap DOMAIN o.vars : Len(m.vars[n]) # Len(o.vars[n])
  \/ DOMAIN m.cons \cap DOMAIN o.cons # {}
(* returns [ok, st, other] *)
MergeOp(m, o, now) ==
  IF MergeRejected(m, o) THEN [ok |-> FALSE, st |-> m, other |-> o]
  ELSE LET oc == ConvertOp(o, m.mtype, now).st
           dup == Names(m) \cap Names(oc)
           all == m.rows \o oc.rows
           named == FoldLeft(LAMBDA acc, r : Append(acc, IF r.name \in dup
                                 THEN [r EXCEPT !.name = Fresh(@ \o " (m)", Names(m) \cup Names(oc) \cup {acc[j].name : j \in DOMAIN acc})] ELSE r), <<>>, all)
       IN [ok |-> TRUE, other |-> oc,
           st |-> [m EXCEPT !.vars = MergeVars(@, oc.vars), !.rows = named, !.off = @ + oc.off,
                            !.cons = @ @@ oc.cons, !.del = @ \cup oc.del, !.fix = @ \cup oc.fix]]

(* A copy is a model of its own with the same content: appended to the models *)
CopyOp(mods, i) == Append(mods, mods[i])

PhysOp(m) == Ok([m EXCEPT !.rows = [i \in DOMAIN SelectSeq(@, IsLive) |-> [SelectSeq(@, IsLive)[i] EXCEPT !.d = FALSE]]])

(* Expression: constant k, terms of degree 1 and 2, and squares of linear expressions. *)
(* e: [k, lin (seq of [v,c]), quad (seq of [v,w,c]), sq (seq of [ts, k, c]), vt (type of its variables)] *)
ExprOwn(e, mt) ==
  PAdd(FromTerms([i \in DOMAIN e.lin |-> <<{e.lin[i].v}, e.lin[i].c>>]
                 \o [i \in DOMAIN e.quad |-> <<{e.quad[i].v, e.quad[i].w}, e.quad[i].c>>]
                 \o << <<Const, e.k>> >>),
       PSum([i \in DOMAIN e.sq |-> PScale(LinSquare(e.sq[i].ts, e.sq[i].k, mt), e.sq[i].c)]))
(* ... over the variables of the model (spin +1 = binary 1) *)
ExprPoly(e, mt) == IF e.vt = mt THEN ExprOwn(e, mt) ELSE Conv(ExprOwn(e, e.vt), e.vt)

-----------------------------------------------------------------------------
(* Part 2: the requirements.                                                  *)
(* A clause is named "<property>.<what>"; each operator returns the set of    *)
(* violated clauses.                                                          *)

If(c, tag) == IF c THEN {} ELSE {tag}
IfAll(c, tags) == IF c THEN {} ELSE tags

Core(r) == <<r.name, r.b, r.k0, r.k1, r.c, r.s, r.d, r.r>>
Meta(r) == <<r.name, r.t, r.a>>
CoreSet(rows) == {Core(rows[i]) : i \in DOMAIN rows}
MetaSet(rows) == {Meta(rows[i]) : i \in DOMAIN rows}
NoName(r) == <<r.b, r.k0, r.k1, r.c, r.s, r.d, r.r, r.t, r.a>>
RowSet(rows) == CoreSet(rows) \X {0}
SameRows(x, y) == Len(x) = Len(y) /\ CoreSet(x) = CoreSet(y) /\ MetaSet(x) = MetaSet(y)
SameState(x, y) == x.mtype = y.mtype /\ x.vars = y.vars /\ x.off = y.off /\ x.cons = y.cons
                   /\ x.del = y.del /\ x.fix = y.fix /\ SameRows(x.rows, y.rows)

(* Exactly the designed state, up to table order; p is the property for content *)
Exactly(want, got, p) ==
     If(Len(want.rows) = Len(got.rows) /\ CoreSet(want.rows) = CoreSet(got.rows), p \o ".rows")
  \cup IfAll(MetaSet(want.rows) = MetaSet(got.rows), {"C12.meta", p \o ".meta"})
  \cup If(want.off = got.off, p \o ".offset")
  \cup If(want.mtype = got.mtype /\ want.vars = got.vars /\ want.cons = got.cons /\ want.del = got.del /\ want.fix = got.fix, p \o ".frame")

Unchanged(pre, post, p) ==
  IfAll(SameState(pre, post), {p \o ".unchanged"} \cup
        (IF MetaSet(pre.rows) # MetaSet(post.rows) THEN {"C12.unchanged"} ELSE {}))

(* Outcome of an operation whose effect is fully determined *)
JDet(res, pre, post, ok, p) ==
  IF res.ok # ok THEN {p \o (IF ok THEN ".accepted" ELSE ".rejected")}
                      \cup (IF ok THEN {} ELSE Unchanged(pre, post, p))
  ELSE IF ok THEN Exactly(res.st, post, p) ELSE Unchanged(pre, post, p)

(* fix_variable *)
RowsByName(m, n) == SelectSeq(m.rows, LAMBDA r : r.name = n)
JFix(pre, a, post, ok) ==
  LET expectOk == a.typ /\ a.val \in Domain(pre.mtype)
      keep == SelectSeq(pre.rows, LAMBDA r : ~Touches(r, a.v) \/ r.r)
      liveTouch == {n \in {pre.rows[i].name : i \in DOMAIN pre.rows} :
                      \E i \in DOMAIN pre.rows : pre.rows[i].name = n /\ Touches(pre.rows[i], a.v) /\ ~pre.rows[i].r}
  IN IF ok # expectOk THEN {"C06" \o (IF ok THEN ".accepted" ELSE ".rejected")}
     ELSE IF ~ok THEN Unchanged(pre, post, "C06")
     ELSE If(TPoly(post) = Subst(TPoly(pre), a.v, a.val), "C06.energy")
       \cup If(CoreSet(keep) \subseteq CoreSet(post.rows), "C06.others")
       \cup IfAll(MetaSet(keep) \subseteq MetaSet(post.rows), {"C06.others", "C12.meta"})
       \cup If(\A i \in DOMAIN post.rows : Touches(post.rows[i], a.v) => post.rows[i].r, "C06.stillthere")
       \cup If(\A i \in DOMAIN post.rows : post.rows[i].name \in liveTouch => post.rows[i].r, "C06.notremoved")
       \cup If(\A i \in DOMAIN post.rows : post.rows[i].name \notin Names(pre) => (post.rows[i].d /\ ~post.rows[i].r), "C06.newrows")
       \cup If(post.fix = pre.fix \cup {a.v}, "C06.fixed")
       \cup If(UniqueNames(post), "C06.names")
       \cup If(post.mtype = pre.mtype /\ post.vars = pre.vars /\ post.cons = pre.cons /\ post.del = pre.del, "C06.frame")

(* delete_variable *)
JDelete(pre, a, post, ok) ==
  LET keep == SelectSeq(pre.rows, LAMBDA r : ~Touches(r, a.v))
  IN IF ok # a.typ THEN {"C07" \o (IF ok THEN ".accepted" ELSE ".rejected")} \cup (IF ok THEN {} ELSE Unchanged(pre, post, "C07"))
     ELSE IF ~ok THEN Unchanged(pre, post, "C07")
     ELSE If(TPoly(post) = Without(TPoly(pre), a.v), "C07.energy")
       \cup If(CoreSet(keep) \subseteq CoreSet(post.rows), "C07.others")
       \cup IfAll(MetaSet(keep) \subseteq MetaSet(post.rows), {"C07.others", "C12.meta"})
       \cup If(Names(post) \subseteq Names(pre) /\ Len(post.rows) <= Len(pre.rows), "C07.newrows")
       \cup If(\A i \in DOMAIN post.rows : Touches(post.rows[i], a.v) => post.rows[i].r /\ post.rows[i].d, "C07.stillthere")
       \cup If(post.cons = [x \in DOMAIN pre.cons |-> WithoutVar(pre.cons[x], a.v)], "C07.constraints")
       \cup If(post.del = pre.del \cup {a.v}, "C07.deleted")
       \cup If(post.mtype = pre.mtype /\ post.vars = pre.vars /\ post.fix = pre.fix /\ post.off = pre.off, "C07.frame")

(* to_ising / to_qubo.  Exact arithmetic in units may fail for very fine      *)
(* coefficients: such executions are not judged (ConvJudgeable).              *)
ConvJudgeable(m, to) == m.mtype = to \/ ConvExact(TPoly(m), m.mtype)
(* True and "known" constant (finding K05: the offset moves the wrong way) *)
TrueOff(m) == Coef(Conv(TPoly(m), m.mtype), Const)
KnownOff(m) == 2 * m.off - TrueOff(m)
JConvertRows(pre, post, p) ==
     If(NoConst(TPoly(post)) = NoConst(Conv(TPoly(pre), pre.mtype)), p \o ".energy")
  \cup If(post.off \in {TrueOff(pre), KnownOff(pre)}, p \o ".constant")
  \cup If(\A i \in DOMAIN pre.rows : \E j \in DOMAIN post.rows :
           /\ Mono(pre.rows[i]) = Mono(post.rows[j]) /\ pre.rows[i].name = post.rows[j].name
           /\ pre.rows[i].r = post.rows[j].r, p \o ".rowkept")
  \cup IfAll(MetaSet(pre.rows) \subseteq MetaSet(post.rows), {p \o ".meta", "C12.meta"})
  \cup If(\A j \in DOMAIN post.rows : post.rows[j].name \notin Names(pre) => ~post.rows[j].r, p \o ".newrows")
  \cup If(UniqueNames(pre) => UniqueNames(post), p \o ".names")
  \cup If(post.mtype = Other(pre.mtype) /\ post.vars = pre.vars /\ post.cons = pre.cons
          /\ post.del = pre.del /\ post.fix = pre.fix, p \o ".frame")
JConvert(pre, to, post, ok) ==
  IF ~ok THEN {"C05.rejected"} \cup Unchanged(pre, post, "C05")
  ELSE IF pre.mtype = to THEN Unchanged(pre, post, "C05")
  ELSE JConvertRows(pre, post, "C05")
KConvert(pre, to, post, ok) ==                \* known finding observed?
  ok /\ pre.mtype # to /\ post.off # TrueOff(pre) /\ post.off = KnownOff(pre)

(* merge: o is the other model before, o2 after *)
Count(x, seq) == Cardinality({i \in DOMAIN seq : seq[i] = x})
JMerge(pre, o, post, o2, ok) ==
  IF ok # ~MergeRejected(pre, o)
  THEN {"C08" \o (IF ok THEN ".accepted" ELSE ".rejected")} \cup (IF ok THEN {} ELSE Unchanged(pre, post, "C08") \cup Unchanged(o, o2, "C08"))
  ELSE IF ~ok THEN Unchanged(pre, post, "C08") \cup Unchanged(o, o2, "C08")
  ELSE LET dup == Names(pre) \cap Names(o2)
           keep == SelectSeq(pre.rows \o o2.rows, LAMBDA r : r.name \notin dup)
           ren == SelectSeq(pre.rows \o o2.rows, LAMBDA r : r.name \in dup)
           keepCore == CoreSet(keep)
           rest == SelectSeq(post.rows, LAMBDA r : Core(r) \notin keepCore)
           renN == [i \in DOMAIN ren |-> NoName(ren[i])]
           restN == [i \in DOMAIN rest |-> NoName(rest[i])]
       IN (IF o.mtype = pre.mtype THEN Unchanged(o, o2, "C08") ELSE JConvertRows(o, o2, "C08"))
          \cup If(CoreSet(keep) \subseteq CoreSet(post.rows), "C08.rows")
          \cup IfAll(MetaSet(keep) \subseteq MetaSet(post.rows), {"C08.meta", "C12.meta"})
          \cup If(Len(post.rows) = Len(pre.rows) + Len(o2.rows), "C08.count")
          \cup If(\A i \in DOMAIN renN : Count(renN[i], renN) = Count(renN[i], restN), "C08.renamed")
          \cup If(UniqueNames(pre) /\ UniqueNames(o2) => UniqueNames(post), "C08.names")
          \cup If(TPoly(post) = PAdd(TPoly(pre), TPoly(o2)), "C08.energy")
          \cup If(post.off = pre.off + o2.off, "C08.offset")
          \cup If(post.cons = pre.cons @@ o2.cons, "C08.constraints")
          \cup IfAll(post.vars = MergeVars(pre.vars, o2.vars), {"C08.vars", "C13.merge"})
          \cup If(post.del = pre.del \cup o2.del /\ post.fix = pre.fix \cup o2.fix, "C08.marks")
          \cup If(post.mtype = pre.mtype, "C08.mtype")

(* from_pyqubo into a model without offset: the terms are added to those that are there; all or nothing *)
ExprVars(e) == {e.lin[i].v : i \in DOMAIN e.lin} \cup UNION {{e.quad[i].v, e.quad[i].w} : i \in DOMAIN e.quad}
               \cup UNION {{e.sq[i].ts[j].v : j \in DOMAIN e.sq[i].ts} : i \in DOMAIN e.sq}
ExprClash(m, e) == \E v \in ExprVars(e) : HasName(m, v) \/ \E w \in ExprVars(e) : HasName(m, DefaultName(v, w))
JPyqubo(pre, e, post, ok) ==
  IF ~ok THEN If(e.und \/ ExprClash(pre, e), "C11.rejected") \cup Unchanged(pre, post, "C11")
  ELSE If(~e.und, "C11.accepted")
    \cup If(NoConst(TPoly(post)) = PAdd(NoConst(TPoly(pre)), NoConst(ExprPoly(e, pre.mtype))), "C11.energy")
    \cup If(post.off = Coef(ExprPoly(e, pre.mtype), Const), "C11.constant")
    \cup If(UniqueNames(post) /\ \A i \in DOMAIN post.rows : (post.rows[i].d /\ ~post.rows[i].r) \/ Core(post.rows[i]) \in CoreSet(pre.rows), "C11.rows")
    \cup IfAll(CoreSet(pre.rows) \subseteq CoreSet(post.rows) /\ MetaSet(pre.rows) \subseteq MetaSet(post.rows), {"C11.others", "C12.meta"})
    \cup If(post.mtype = pre.mtype /\ post.vars = pre.vars /\ post.cons = pre.cons /\ post.del = pre.del /\ post.fix = pre.fix, "C11.frame")

(* The physical model.                                                        *)
(* ph: [mtype, lin (seq of [k,v]), quad (seq of [a,b,v]), off, vars (seq),    *)
(*      neg (sequence like lin/quad: to_bqm with sign 1), poly (seq of        *)
(*      [i,j,v]), l2i (function label -> index), i2l (seq of [i,l]),          *)
(*      kc: the constant of the penalties alone]                              *)
PhysPoly(ph) == FromTerms([i \in DOMAIN ph.lin |-> <<{ph.lin[i].k}, ph.lin[i].v>>]
                          \o [i \in DOMAIN ph.quad |-> <<{ph.quad[i].a, ph.quad[i].b}, ph.quad[i].v>>])
NegPoly(ph) == FromTerms([i \in DOMAIN ph.nlin |-> <<{ph.nlin[i].k}, ph.nlin[i].v>>]
                          \o [i \in DOMAIN ph.nquad |-> <<{ph.nquad[i].a, ph.nquad[i].b}, ph.nquad[i].v>>])

JIndex(ph) ==
  LET P == PhysPoly(ph)
      vs == {ph.vars[i] : i \in DOMAIN ph.vars}
      n == Cardinality(vs)
      i2l(i) == {ph.i2l[j].l : j \in {j \in DOMAIN ph.i2l : ph.i2l[j].i = i}}
      okIdx == /\ DOMAIN ph.l2i = vs
               /\ {ph.l2i[v] : v \in vs} = 0..(n - 1)
               /\ {<<ph.i2l[j].i, ph.i2l[j].l>> : j \in DOMAIN ph.i2l} = {<<ph.l2i[v], v>> : v \in vs}
               /\ Len(ph.i2l) = n
      okRef == \A j \in DOMAIN ph.poly : ph.poly[j].i \in 0..(n - 1) /\ ph.poly[j].j \in 0..(n - 1)
      lab(i) == CHOOSE l \in i2l(i) : TRUE
      Q == FromTerms([j \in DOMAIN ph.poly |-> <<{lab(ph.poly[j].i), lab(ph.poly[j].j)}, ph.poly[j].v>>])
  IN If(vs = PVars(P) /\ Len(ph.vars) = n, "C03.variables")
     \cup If(okIdx, "C03.indices")
     \cup (IF okIdx THEN (IF okRef THEN If(Q = P, "C03.polynomial") ELSE {"C03.polynomial"}) ELSE {})
     \cup If(NegPoly(ph) = PNeg(P), "C03.sign")

(* want: intended polynomial of the interactions and the offset (ghost)       *)
(* sym: the model contains placeholders                                       *)
JEnergy(m, want, ph, sym) ==
  LET full == NoConst(PAdd(want, PenAll(m)))
      c == DOMAIN m.cons # {}
      tags(x) == {"C01" \o x} \cup (IF c THEN {"C09" \o x} ELSE {}) \cup (IF sym THEN {"C10" \o x} ELSE {})
  IN IfAll(PhysPoly(ph) = full, tags(".energy"))
     \cup IfAll(ph.off - ph.kc = Coef(want, Const), tags(".offset"))
     \cup If(ph.mtype = m.mtype, "C01.mtype")

(* Directly after fixing variable v: constraints should have been substituted too. *)
FixedInCons(m, v) == v \in AllConsVars(m)

JPhys(pre, post, ok, expectOk, sym) ==
  IF ok # expectOk THEN (IF ok THEN {"C10.missing"} ELSE {"C02.rejected", "C01.rejected"} \cup (IF sym THEN {"C10.rejected"} ELSE {})
                                   \cup (IF DOMAIN pre.cons # {} THEN {"C09.rejected"} ELSE {}) \cup Unchanged(pre, post, "C02"))
  ELSE IF ~ok THEN Unchanged(pre, post, "C02")
  ELSE Exactly(PhysOp(pre).st, post, "C02")

(* Models and physical models that were created stay what they are.           *)
(* hr: what each physical model created so far reads as now (a number, equal  *)
(* for equal content), held: what it read as before the call; peq, eq: what   *)
(* == and != said about pairs of physical models and of logical models.       *)
JHeld(held, hr, peq) ==
     If(\A k \in DOMAIN held : hr[k] = held[k], "C29.snapshot")
  \cup If(\A k \in DOMAIN peq : peq[k].v = (hr[peq[k].a] = hr[peq[k].b]) /\ peq[k].w = ~peq[k].v, "C29.equality")
JEqual(ps, eq) == If(\A k \in DOMAIN eq : eq[k].w = ~eq[k].v /\ (eq[k].v => SameState(ps[eq[k].a], ps[eq[k].b])), "C29.equality")
(* a deep copy equals its original at first *)
JCopied(n, i, how, eq) == If(how # "deep" \/ \A k \in DOMAIN eq : eq[k].a = i /\ eq[k].b = n => eq[k].v, "C29.equality")

(* Facts about every state *)
(* x: [size, all, nd, nf (reported sizes), labels (function name -> seq), gat (get_attributes agrees), rd (readable)] *)
JState(m, x) ==
  If(x.all = AllSize(m) /\ x.nd = Cardinality(m.del) /\ x.nf = Cardinality(m.fix) /\ x.size = AliveSize(m), "C13.sizes")
  \cup If(DOMAIN x.labels = DOMAIN m.vars /\ \A n \in DOMAIN x.labels :
             {x.labels[n][i] : i \in DOMAIN x.labels[n]} = Labels(n, m.vars[n]) /\ Len(x.labels[n]) = Prod(m.vars[n]), "C13.labels")
  \cup If(x.gat, "C12.get")

-----------------------------------------------------------------------------
(* Part 3: judging one call.                                                  *)
(* e: [op, i, j, a, ok] with i, j the models addressed (j = 0: none);         *)
(* ms: all models before, ps: all models after, l: number of the call.        *)

Prop(op) == CASE op \in {"add", "update", "remove", "select"} -> "C04"
              [] op \in {"new", "vars", "append"} -> "C13"
              [] op = "offset" -> "C04"
              [] op = "delete" -> "C07"
              [] op = "fix" -> "C06"
              [] op \in {"addcons", "remcons", "consadd", "consrem"} -> "C09"
              [] op \in {"ising", "qubo"} -> "C05"
              [] op = "merge" -> "C08"
              [] op \in {"phys", "physother", "physmissing"} -> "C02"
              [] op = "pyqubo" -> "C11"
              [] op = "copy" -> "C29"

(* which interactions a question is about *)
Selected(r, q, v) == CASE q = "var" -> Touches(r, v)
                       [] q = "key" -> Touches(r, v)
                       [] q = "name" -> r.name = v
                       [] q = "live" -> ~r.r
                       [] q = "pending" -> r.d
                       [] q = "lin" -> r.b = 1
                       [] q = "quad" -> r.b = 2
                       [] q = "scaled" -> r.s # One
                       [] q = "old" -> r.t < 1000000

JudgeOp(e, ms, ps, l, sym) ==
  LET a == e.a now == e.now pre == ms[e.i] post == ps[e.i] IN
  CASE e.op = "vars"    -> JDet(VariablesOp(pre, a), pre, post, e.ok, "C13")
    [] e.op = "append"  -> JDet(AppendOp(pre, a), pre, post, e.ok, "C13")
    [] e.op = "add"     -> JDet(AddOp(pre, a, now), pre, post, e.ok, "C04")
    [] e.op = "update"  -> JDet(UpdateOp(pre, a, now), pre, post, e.ok, "C04")
    [] e.op = "remove"  -> JDet(RemoveOp(pre, a), pre, post, e.ok, "C04")
    [] e.op = "offset"  -> JDet(OffsetOp(pre, a), pre, post, e.ok, "C04")
    [] e.op = "delete"  -> JDelete(pre, a, post, e.ok)
    [] e.op = "fix"     -> JFix(pre, a, post, e.ok)
    [] e.op = "addcons" -> JDet(AddConsOp(pre, a), pre, post, e.ok, "C09")
    [] e.op = "remcons" -> JDet(RemConsOp(pre, a), pre, post, e.ok, "C09")
    [] e.op = "consadd" -> JDet(ConsAddOp(pre, a), pre, post, e.ok, "C09")
    [] e.op = "consrem" -> JDet(ConsRemOp(pre, a), pre, post, e.ok, "C09")
    [] e.op = "ising"   -> JConvert(pre, "ising", post, e.ok)
    [] e.op = "qubo"    -> JConvert(pre, "qubo", post, e.ok)
    [] e.op = "pyqubo"  -> JPyqubo(pre, a, post, e.ok)
    [] e.op = "phys"    -> JPhys(pre, post, e.ok, TRUE, sym)
    [] e.op = "physother" -> JPhys(pre, post, e.ok, TRUE, sym)
    [] e.op = "physmissing" -> JPhys(pre, post, e.ok, ~a.need, sym)
    [] e.op = "select"  -> Unchanged(pre, post, "C04") \cup
          LET hits == {k \in DOMAIN pre.rows : Selected(pre.rows[k], a.q, a.v)}
          IN If(e.ok /\ {a.names[k] : k \in DOMAIN a.names} = {pre.rows[k].name : k \in hits} /\ Len(a.names) = Cardinality(hits), "C04.select")
    [] e.op = "copy"    -> IF ~e.ok THEN {"C29.rejected"} \cup Unchanged(pre, post, "C29")
                           ELSE Unchanged(pre, post, "C29") \cup If(SameState(pre, ps[Len(ps)]), "C29.copy")
    [] e.op = "merge"   -> JMerge(pre, ms[e.j], post, IF e.i = e.j THEN pre ELSE ps[e.j], e.ok)

(* The intended polynomial (interactions and offset) of the model addressed,  *)
(* after the call, from the one before and the arguments alone.               *)
GAfter(e, ms, ps, G) ==
  LET a == e.a g == G[e.i] pre == ms[e.i] post == ps[e.i]
      nm == IF a.name # "" THEN a.name ELSE DefaultName(a.k0, a.k1)
      old == pre.rows[IdxOf(pre, nm)]
      upd == UpdateOp(pre, a, 0)
      new == upd.st.rows[IdxOf(upd.st, nm)]
  IN IF ~e.ok THEN g ELSE
  CASE e.op = "add"    -> PAdd(g, PTerm(IF a.tk = "lin" THEN {a.k0} ELSE {a.k0, a.k1}, 0 - a.c * a.s))
    [] e.op = "update" -> IF ~upd.ok THEN g ELSE IF HasName(pre, nm) THEN PAdd(PSub(g, TermP(old)), TermP(new)) ELSE PAdd(g, TermP(new))
    [] e.op = "remove" -> IF HasName(pre, nm) /\ ~old.r THEN PSub(g, TermP(old)) ELSE g
    [] e.op = "offset" -> PAdd(NoConst(g), PTerm(Const, a.c))
    [] e.op = "delete" -> Without(g, a.v)
    [] e.op = "fix"    -> Subst(g, a.v, a.val)
    [] e.op \in {"ising", "qubo"} -> IF pre.mtype = e.op THEN g ELSE PAdd(NoConst(Conv(g, pre.mtype)), PTerm(Const, post.off))
    [] e.op = "pyqubo" -> PAdd(NoConst(g), ExprPoly(a, pre.mtype))
    [] e.op = "merge"  ->
         LET go == IF e.i = e.j THEN g
                   ELSE IF ms[e.j].mtype = pre.mtype THEN G[e.j]
                   ELSE PAdd(NoConst(Conv(G[e.j], ms[e.j].mtype)), PTerm(Const, ps[e.j].off))
         IN PAdd(g, go)
    [] OTHER -> g

GOther(e, ms, ps, G) ==      \* the other model of a merge
  IF e.ok /\ ms[e.j].mtype # ms[e.i].mtype
  THEN PAdd(NoConst(Conv(G[e.j], ms[e.j].mtype)), PTerm(Const, ps[e.j].off))
  ELSE G[e.j]

(* All intended polynomials *)
GAll(e, ms, ps, G) == [k \in DOMAIN ps |-> IF k = e.i THEN GAfter(e, ms, ps, G)
                                          ELSE IF e.op = "merge" /\ k = e.j THEN GOther(e, ms, ps, G)
                                          ELSE IF k > Len(G) THEN G[e.i] ELSE G[k]]     \* a copy

Judgeable(e, ms, G) ==
  CASE e.op \in {"ising", "qubo"} -> ConvJudgeable(ms[e.i], e.op) /\ (ms[e.i].mtype = e.op \/ ConvExact(G[e.i], ms[e.i].mtype))
    [] e.op = "merge" -> ms[e.i].mtype = ms[e.j].mtype \/ (ConvJudgeable(ms[e.j], ms[e.i].mtype) /\ ConvExact(G[e.j], ms[e.j].mtype))
    [] e.op = "pyqubo" -> e.a.vt = ms[e.i].mtype \/ ConvExact(ExprOwn(e.a, e.a.vt), e.a.vt)
    [] OTHER -> TRUE
=============================================================================
