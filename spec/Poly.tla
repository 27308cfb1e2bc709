-------------------------------- MODULE Poly --------------------------------
(* Polynomials of degree <= 2 over named variables, the "problems" sawatabi  *)
(* is about.  A polynomial is a function from monomials (sets of at most two *)
(* labels; {} is the constant term) to integers, without zero entries.      *)
(* Two bases are used: binary variables x in {0,1} ("qubo") and spins        *)
(* s in {-1,1} ("ising"), related by s = 2x - 1.                             *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions, TLC

Const == {}                                   \* the monomial of the constant

Coef(P, m) == IF m \in DOMAIN P THEN P[m] ELSE 0
Norm(P) == LET nz == {m \in DOMAIN P : P[m] # 0} IN
           IF nz = DOMAIN P THEN P ELSE [m \in nz |-> P[m]]
ZeroPoly == [m \in {} |-> 0]
PAdd(P, Q) == Norm([m \in DOMAIN P \cup DOMAIN Q |-> Coef(P, m) + Coef(Q, m)])
PNeg(P) == [m \in DOMAIN P |-> 0 - P[m]]
PSub(P, Q) == PAdd(P, PNeg(Q))
PScale(P, k) == Norm([m \in DOMAIN P |-> k * P[m]])
PTerm(m, c) == Norm([x \in {m} |-> c])
PSum(seq) == FoldLeft(PAdd, ZeroPoly, seq)
SumInts(seq) == FoldLeft(+, 0, seq)

(* Sum of a sequence of terms <<monomial, coefficient>> *)
FromTerms(ts) ==
  LET monos == {ts[i][1] : i \in DOMAIN ts}
      C(m) == FoldLeft(LAMBDA acc, t : IF t[1] = m THEN acc + t[2] ELSE acc, 0, ts)
  IN  Norm([m \in monos |-> C(m)])

NoConst(P) == [m \in DOMAIN P \ {Const} |-> P[m]]
Degree(P) == Max({0} \cup {Cardinality(m) : m \in DOMAIN P})
PVars(P) == UNION DOMAIN P

(* Sum of the coefficients of the monomials in the set S, weighted by w *)
SumOver(P, S) == FoldSet(LAMBDA m, acc : acc + P[m], 0, S)

Lin(P) == {m \in DOMAIN P : Cardinality(m) = 1}
Quad(P) == {m \in DOMAIN P : Cardinality(m) = 2}

(* Basis change, exact: spins to binaries.                                   *)
(*   c*s   = 2c*x - c            c*s*t = 4c*x*y - 2c*x - 2c*y + c            *)
ToQuboPoly(P) ==
  LET vs == PVars(P)
      lin(v) == 2 * Coef(P, {v}) - 2 * SumOver(P, {m \in Quad(P) : v \in m})
      monos == {Const} \cup {{v} : v \in vs} \cup Quad(P)
  IN Norm([m \in monos |->
        IF m = Const THEN Coef(P, Const) - SumOver(P, Lin(P)) + SumOver(P, Quad(P))
        ELSE IF Cardinality(m) = 1 THEN lin(CHOOSE v \in m : TRUE)
        ELSE 4 * P[m]])

(* Basis change of 4*P, binaries to spins (4* keeps it integral).            *)
(*   c*x = (c/2)*s + c/2         c*x*y = (c/4)*(s*t + s + t + 1)             *)
ToIsingPoly4(P) ==
  LET vs == PVars(P)
      lin(v) == 2 * Coef(P, {v}) + SumOver(P, {m \in Quad(P) : v \in m})
      monos == {Const} \cup {{v} : v \in vs} \cup Quad(P)
  IN Norm([m \in monos |->
        IF m = Const THEN 4 * Coef(P, Const) + 2 * SumOver(P, Lin(P)) + SumOver(P, Quad(P))
        ELSE IF Cardinality(m) = 1 THEN lin(CHOOSE v \in m : TRUE)
        ELSE P[m]])
Div4OK(P) == \A m \in DOMAIN P : P[m] % 4 = 0
Div4(P) == [m \in DOMAIN P |-> P[m] \div 4]

(* The other basis; only meaningful if ConvExact *)
ConvExact(P, from) == from = "ising" \/ Div4OK(ToIsingPoly4(P))
Conv(P, from) == IF from = "ising" THEN ToQuboPoly(P) ELSE Div4(ToIsingPoly4(P))

(* Substitution of a value for a variable *)
Subst(P, v, val) ==
  LET terms == {m \in DOMAIN P : v \in m}
      rest == {m \in DOMAIN P : v \notin m}
      monos == rest \cup {m \ {v} : m \in terms}
  IN Norm([m \in monos |-> Coef(P, m) + val * Coef(P, m \cup {v})])

(* All terms with the variable dropped *)
Without(P, v) == [m \in {m \in DOMAIN P : v \notin m} |-> P[m]]

(* Value of a polynomial under an assignment (function from labels to Int) *)
Eval(P, x) == FoldSet(LAMBDA m, acc : acc + P[m] * FoldSet(LAMBDA v, a : a * x[v], 1, m), 0, DOMAIN P)

(* Square of a linear expression <<sequence of [v, c]>> + const, in a basis *)
LinSquare(ts, k, basis) ==
  LET n == Len(ts)
      sq == [i \in 1..n |-> IF basis = "qubo" THEN <<{ts[i].v}, ts[i].c * ts[i].c>> ELSE <<Const, ts[i].c * ts[i].c>>]
      cross == [i \in 1..n |-> <<{ts[i].v}, 2 * k * ts[i].c>>]
      pairs == {<<i, j>> \in (1..n) \X (1..n) : i < j}
      qs == SetToSeq(pairs)
      quad == [i \in DOMAIN qs |-> <<{ts[qs[i][1]].v, ts[qs[i][2]].v}, 2 * ts[qs[i][1]].c * ts[qs[i][2]].c>>]
  IN FromTerms(sq \o cross \o quad \o << <<Const, k * k>> >>)
=============================================================================
