------------------------------ MODULE SolveMC -------------------------------
(* Exhaustive exploration of the solver designs on all problems over three    *)
(* labels with coefficients in Coefs: the exact solver, which walks through   *)
(* all assignments changing one variable at a time, and the remote solver     *)
(* with its server as environment (any rows, any status).                     *)
(* Variant # "design": a design with a mistake, which must be refuted.        *)
EXTENDS Solve

CONSTANTS Variant, Kind, Emit
Coefs == {-1, 0, 2}
Labels == <<"x[0]", "x[1]", "x[10]">>                       \* in the order of their index
Monos == {Const, {"x[0]"}, {"x[10]"}, {"x[0]", "x[1]"}, {"x[1]", "x[10]"}}
Sorted == <<"x[0]", "x[10]", "x[1]">>                       \* another order

VARIABLES P, mtype, phase, net, reply, ans, cur, todo
vars == <<P, mtype, phase, net, reply, ans, cur, todo>>
V == PVars(P)
Terms == LET q == SetToSeq(DOMAIN P) IN [i \in DOMAIN q |-> <<SetToSeq(q[i]), P[q[i]]>>]
Order(seq) == SelectSeq(seq, LAMBDA l : l \in V)
Idx == LET o == Order(Labels) IN [v \in V |-> (CHOOSE i \in DOMAIN o : o[i] = v) - 1]
(* the mapping the client uses to read a row *)
ReadIdx == IF Variant = "labels" THEN LET o == Order(Sorted) IN [v \in V |-> (CHOOSE i \in DOMAIN o : o[i] = v) - 1] ELSE Idx
Supported == V # {} /\ (Kind = "exact" \/ mtype = "qubo")

Init == /\ P \in {Norm(f) : f \in [Monos -> Coefs]} /\ mtype \in {"ising", "qubo"}
        /\ phase = "called" /\ net = <<>> /\ reply = <<>> /\ ans = <<>>
        /\ cur = <<>> /\ todo = {}

Reject == /\ phase = "called" /\ ~Supported
          /\ phase' = "rejected"
          /\ net' = IF Variant = "late" THEN Append(net, IdxPoly(P, Idx)) ELSE net
          /\ UNCHANGED <<P, mtype, reply, ans, cur, todo>>
(* ---- remote ---- *)
Send == /\ Kind = "remote" /\ phase = "called" /\ Supported
        /\ net' = Append(net, IdxPoly(P, Idx)) /\ phase' = "sent"
        /\ UNCHANGED <<P, mtype, reply, ans, cur, todo>>
Rows == [1..Cardinality(V) -> {0, 1}]
RowEnergy(row) == Eval(net[1], [i \in 0..(Cardinality(V) - 1) |-> row[i + 1]])
Answer == /\ phase = "sent" /\ reply = <<>>
          /\ \E r1, r2 \in Rows, st \in {200, 500} :
               /\ reply' = << [status |-> st, rows |-> <<r1, r2>>, es |-> <<RowEnergy(r1), RowEnergy(r2)>>] >>
               /\ (Emit => PrintT(<<"PLAN", Terms, mtype, <<SubSeq(r1, 1, Len(r1)), SubSeq(r2, 1, Len(r2))>>, st>>))
          /\ UNCHANGED <<P, mtype, phase, net, ans, cur, todo>>
Conv_(i) == [s |-> RowOf(reply[1].rows[i], ReadIdx), e |-> reply[1].es[i] + (IF Variant = "nooffset" THEN 0 ELSE Coef(P, Const)), n |-> 1]
Receive == /\ phase = "sent" /\ reply # <<>>
           /\ IF reply[1].status = 200 \/ Variant = "ignorestatus"
              THEN /\ phase' = "returned"
                   /\ LET a == Conv_(1) b == Conv_(2) IN
                      ans' = IF a.s = b.s /\ Variant # "noagg" THEN << [a EXCEPT !.n = IF Variant = "lostcount" THEN 1 ELSE 2] >> ELSE <<a, b>>
                   /\ UNCHANGED <<net, reply>>
              ELSE IF Variant = "retry" /\ Len(net) < 2
              THEN net' = Append(net, net[1]) /\ reply' = <<>> /\ UNCHANGED <<phase, ans>>
              ELSE phase' = "raised" /\ UNCHANGED <<net, reply, ans>>
           /\ UNCHANGED <<P, mtype, cur, todo>>
(* ---- exact: cur is the assignment, todo the assignments not yet reached ---- *)
Assigns == [V -> Dom(mtype)]
Start == /\ Kind = "exact" /\ phase = "called" /\ Supported
         /\ \E x \in Assigns :
              /\ cur' = [s |-> x, e |-> Eval(P, x)] /\ todo' = Assigns \ {x}
              /\ (\A v \in V : x[v] = Min(Dom(mtype)))
              /\ ans' = << [s |-> x, e |-> Eval(P, x), n |-> 1] >>
         /\ (Emit => PrintT(<<"PLAN", Terms, mtype, <<>>, 200>>))
         /\ phase' = "walking" /\ UNCHANGED <<P, mtype, net, reply>>
Other(a) == CHOOSE b \in Dom(mtype) : b # a
(* change of the energy when v changes *)
Diff(x, v) == FoldSet(LAMBDA m, acc : acc + P[m] * (Other(x[v]) - x[v]) * FoldSet(LAMBDA w, a : a * x[w], 1, m \ {v}), 0, {m \in DOMAIN P : v \in m})
Walk == /\ phase = "walking" /\ todo # {}
        /\ \E v \in V :
             LET y == [cur.s EXCEPT ![v] = Other(@)]
                 e == cur.e + (IF Variant = "wrongdiff" THEN 0 - Diff(cur.s, v) ELSE Diff(cur.s, v))
             IN /\ (y \in todo \/ (Variant = "twice" /\ Len(ans) < 8))
                /\ cur' = [s |-> y, e |-> e] /\ todo' = todo \ {y}
                /\ ans' = Append(ans, [s |-> y, e |-> e, n |-> 1])
        /\ UNCHANGED <<P, mtype, phase, net, reply>>
Finish == /\ phase = "walking" /\ todo = {}
          /\ phase' = "returned"
          /\ cur' = CHOOSE a \in {[s |-> ans[i].s, e |-> ans[i].e] : i \in DOMAIN ans} :
                       IF Variant = "worst" THEN \A i \in DOMAIN ans : ans[i].e <= a.e ELSE \A i \in DOMAIN ans : a.e <= ans[i].e
          /\ UNCHANGED <<P, mtype, net, reply, ans, todo>>
Next == Reject \/ Send \/ Answer \/ Receive \/ Start \/ Walk \/ Finish
Spec == Init /\ [][Next]_vars

InvTrue == phase = "returned" => TrueSamples(P, mtype, ans)
InvReads == (phase = "returned" /\ Kind = "remote") => Reads(ans) = Len(reply[1].rows) /\ Aggregated(ans)
InvBag == (phase = "returned" /\ Kind = "remote") => AnsBag(ans) = ReplyBag(P, Idx, reply[1].rows, reply[1].es)
InvExact == (phase = "returned" /\ Kind = "exact") => EveryOnce(P, ans) /\ FirstIsMin(P, mtype, cur)
InvOne == Len(net) <= 1
InvNone == phase = "rejected" => net = <<>>
InvStatus == (phase = "returned" /\ Kind = "remote") => reply[1].status = 200
InvWire == \A i \in DOMAIN net : net[i] = IdxPoly(P, Idx) /\ Const \notin DOMAIN net[i]
=============================================================================
