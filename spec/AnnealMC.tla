------------------------------ MODULE AnnealMC ------------------------------
(* Exhaustive exploration of the annealer: all problems over Vars with        *)
(* coefficients in Coefs, all chains (order and accept decisions), a schedule *)
(* of every kind.                                                             *)
EXTENDS Anneal

CONSTANTS Sweeps, Mode
Coefs == {-1, 0, 2}

Vars == {"a", "b", "c"}
Order == <<"a", "b", "c">>
Monos == {{"a"}, {"b"}, {"a", "b"}, {"b", "c"}, {"a", "c"}}
Scheds == {[T0 |-> 64, R |-> 0, period |-> -1, cp |-> 1, cq |-> 2], [T0 |-> 0, R |-> 64, period |-> 2, cp |-> 1, cq |-> 2],
           [T0 |-> 0, R |-> 64, period |-> 0, cp |-> 3, cq |-> 4], [T0 |-> 0, R |-> 64, period |-> 9, cp |-> 1, cq |-> 2]}

VARIABLES P, sc, s, e, sw, todo, acc, x, eh, ah, th
vars == <<P, sc, s, e, sw, todo, acc, x, eh, ah, th>>

Init == /\ P \in {Norm(f) : f \in [Monos -> Coefs]}
        /\ sc \in Scheds
        /\ s \in [Vars -> Spin]
        /\ e = Eval(P, s) /\ sw = 1 /\ todo = Vars /\ acc = 0
        /\ x = SchedInit(sc.T0, sc.R, sc.period)
        /\ eh = <<e>> /\ ah = <<>> /\ th = <<x.T>>

Try(v) == /\ sw <= Sweeps /\ v \in Candidates(Mode, Order, todo)
          /\ LET d == Delta(P, s, v) IN
             \/ /\ MayFlip(d, 30 * x.T) /\ s' = Flip(s, v) /\ e' = e + d /\ acc' = acc + 1
             \/ /\ MayStay(d) /\ UNCHANGED <<s, e, acc>>
          /\ todo' = todo \ {v}
          /\ UNCHANGED <<P, sc, sw, x, eh, ah, th>>
EndSweep == /\ todo = {} /\ sw <= Sweeps
            /\ sw' = sw + 1 /\ acc' = 0
            /\ todo' = IF sw < Sweeps THEN Vars ELSE {}
            /\ x' = SchedNext(x, sw - 1, sc.R, sc.period, sc.cp, sc.cq)
            /\ ah' = Append(ah, acc)
            /\ eh' = IF sw < Sweeps THEN Append(eh, e) ELSE eh
            /\ th' = IF sw < Sweeps THEN Append(th, x'.T) ELSE th
            /\ UNCHANGED <<P, sc, s, e>>
Next == (\E v \in Vars : Try(v)) \/ EndSweep
Spec == Init /\ [][Next]_vars

(* The energy carried along is the energy of the state *)
Energies == e = Eval(P, s)
(* Variables that are not coupled do not influence each other *)
Independent == \A v, w \in Vars : (v # w /\ {v, w} \notin DOMAIN P) => Delta(P, Flip(s, v), w) = Delta(P, s, w)
(* One entry per sweep *)
Lengths == /\ Len(eh) = (IF sw > Sweeps THEN Sweeps ELSE sw)
           /\ Len(th) = Len(eh) /\ Len(ah) = sw - 1
Accepted == acc <= Cardinality(Vars) - Cardinality(todo) /\ \A i \in DOMAIN ah : ah[i] \in 0..Cardinality(Vars)
(* Closed form of the schedule *)
RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
ForwardSchedule == sc.period < 0 => \A i \in DOMAIN th : th[i] * Pow(sc.cq, i - 1) = sc.T0 * Pow(sc.cp, i - 1)
ReverseSchedule ==
  sc.period >= 0 =>
    /\ th[1] = 0
    /\ \A i \in DOMAIN th : th[i] < sc.R
    /\ \A i \in 2..Len(th) : IF i - 2 < sc.period THEN th[i] > th[i - 1]
                             ELSE th[i] <= th[i - 1] /\ th[i] * sc.cq = th[i - 1] * sc.cp
(* A chain at temperature 0 never goes up *)
Down == [][(x.T = 0 /\ sw' = sw) => e' <= e]_vars
=============================================================================
