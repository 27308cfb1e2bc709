------------------------------- MODULE Anneal -------------------------------
(* The built-in annealer (SawatabiSolver) as a state machine.                 *)
(* One read is a Metropolis chain over spins: in each sweep every variable is *)
(* tried exactly once; a try flips the spin always if the energy does not     *)
(* increase, possibly if it increases by a possible amount, and never if the  *)
(* increase is out of reach for the temperature.  The problem P is a          *)
(* polynomial over spins (module Poly).                                       *)
(* The temperature follows a schedule machine [T, tgt, rev].                  *)
EXTENDS Poly

Spin == {-1, 1}

(* Change of the energy if v is flipped in s *)
Delta(P, s, v) ==
  FoldSet(LAMBDA m, acc : acc - 2 * P[m] * FoldSet(LAMBDA w, a : a * s[w], 1, m), 0, {m \in DOMAIN P : v \in m})
Flip(s, v) == [s EXCEPT ![v] = 0 - @]

(* May / must a flip that changes the energy by d be taken?  thr: increases   *)
(* above it have a probability that cannot be observed.                       *)
MayFlip(d, thr) == d <= thr \/ d <= 0
MayStay(d) == d > 0

(* Which variables may be tried next: order is the sequence of variables *)
Candidates(mode, order, todo) ==
  IF mode = "sequential" /\ todo # {} THEN {order[Min({i \in DOMAIN order : order[i] \in todo})]} ELSE todo

-----------------------------------------------------------------------------
(* Temperature schedule.  c = cp/cq is the cooling rate, k counts sweeps      *)
(* from 0; period = -1 for forward annealing.  tgt is the part of the reverse *)
(* temperature that is still missing.                                         *)
SchedInit(T0, R, period) == IF period < 0 THEN [T |-> T0, tgt |-> 0] ELSE [T |-> 0, tgt |-> R]
SchedNext(x, k, R, period, cp, cq) ==
  IF period >= 0 /\ k < period
  THEN LET t == (x.tgt * cp) \div cq IN [T |-> R - t, tgt |-> t]
  ELSE [T |-> (x.T * cp) \div cq, tgt |-> x.tgt]
=============================================================================
