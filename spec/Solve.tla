------------------------------- MODULE Solve --------------------------------
(* What a solver owes to its caller, and the protocol of the remote solver.   *)
(* A problem is a polynomial P (module Poly, constant included) over the      *)
(* variables V = PVars(P) with values in Dom(mtype).  An answer is a sequence *)
(* of [s |-> assignment, e |-> reported energy, n |-> occurrences].           *)
EXTENDS Poly

Dom(mtype) == IF mtype = "ising" THEN {-1, 1} ELSE {0, 1}
Tag(ok, t) == IF ok THEN {} ELSE {t}

VarsOK(P, ans) == \A i \in DOMAIN ans : DOMAIN ans[i].s = PVars(P)
DomOK(mtype, ans) == \A i \in DOMAIN ans : \A v \in DOMAIN ans[i].s : ans[i].s[v] \in Dom(mtype)
EnergyOK(P, ans) == \A i \in DOMAIN ans : ans[i].e = Eval(P, ans[i].s)
Reads(ans) == SumInts([i \in DOMAIN ans |-> ans[i].n])

(* C14: true samples *)
TrueSamples(P, mtype, ans) == VarsOK(P, ans) /\ DomOK(mtype, ans) /\ EnergyOK(P, ans)

(* C15: every assignment once; first is what the answer calls its best *)
Pow2(n) == LET f[k \in 0..n] == IF k = 0 THEN 1 ELSE 2 * f[k - 1] IN f[n]
EveryOnce(P, ans) == /\ Len(ans) = Pow2(Cardinality(PVars(P)))
                     /\ Cardinality({ans[i].s : i \in DOMAIN ans}) = Len(ans)
                     /\ \A i \in DOMAIN ans : ans[i].n = 1
(* (if the answer lists every assignment with its energy, it is enough to compare with the answer) *)
FirstIsMinOf(ans, first) == \A i \in DOMAIN ans : first.e <= ans[i].e
FirstIsMin(P, mtype, first) == \A x \in [PVars(P) -> Dom(mtype)] : Eval(P, first.s) <= Eval(P, x)

-----------------------------------------------------------------------------
(* The remote protocol.  idx: variables -> 0..n-1.                            *)
(* The index based polynomial of P, without the constant *)
IdxPoly(P, idx) == LET lab == [i \in {idx[v] : v \in DOMAIN idx} |-> CHOOSE v \in DOMAIN idx : idx[v] = i]
                   IN [m \in {{idx[v] : v \in w} : w \in DOMAIN P \ {Const}} |-> P[{lab[i] : i \in m}]]
(* ... as received, a sequence of <<i, j, coefficient>> *)
WirePoly(ts) == FromTerms([k \in DOMAIN ts |-> <<{ts[k][1], ts[k][2]}, ts[k][3]>>])
Dense(idx) == \A a, b \in DOMAIN idx : a # b => idx[a] # idx[b]
(* A row of the reply as an assignment *)
RowOf(row, idx) == [v \in DOMAIN idx |-> row[idx[v] + 1]]
(* The answer that a reply stands for: a bag of <<assignment, energy>> *)
Count(seq, x) == Cardinality({i \in DOMAIN seq : seq[i] = x})
ReplyBag(P, idx, rows, es) ==
  LET all == [i \in DOMAIN rows |-> <<RowOf(rows[i], idx), es[i] + Coef(P, Const)>>]
  IN [x \in {all[i] : i \in DOMAIN all} |-> Count(all, x)]
AnsBag(ans) == [x \in {<<ans[i].s, ans[i].e>> : i \in DOMAIN ans} |->
                  SumInts([i \in DOMAIN ans |-> IF <<ans[i].s, ans[i].e>> = x THEN ans[i].n ELSE 0])]
Aggregated(ans) == Cardinality({ans[i].s : i \in DOMAIN ans}) = Len(ans)
=============================================================================
