------------------------------- MODULE Repro --------------------------------
(* Reproducibility and isolation of solving (C17).                            *)
(* A session is a sequence of solve calls on some solver objects, interleaved *)
(* with draws from the global random generators by the rest of the program.   *)
(*   memo   results seen so far: (problem, seed, options) -> result           *)
(* The requirement on a solve is Judge; the design (Solve) derives the        *)
(* result from a generator created for the call.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

If(c, tag) == IF c THEN {} ELSE {tag}

(* e: [key, seeded, res, g0, g1 (global generators before, after), in0, in1   *)
(*     (inputs before, after), own (built-in annealer)]                       *)
Judge(e, memo) ==
  If(e.seeded /\ e.own /\ e.key \in DOMAIN memo => memo[e.key] = e.res, "C17.differs")
  \cup If(e.own => e.g0 = e.g1, "C17.generators")
  \cup If(e.in0 = e.in1, "C17.inputs")
Memo(e, memo) == IF e.seeded /\ e.own /\ e.key \notin DOMAIN memo THEN (e.key :> e.res) @@ memo ELSE memo
=============================================================================
