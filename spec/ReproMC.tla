------------------------------ MODULE ReproMC -------------------------------
(* The design: every solve creates its own generator from the seed, whatever  *)
(* the seed is; all sessions of bounded length over two solver objects, three *)
(* seeds (0 included), unseeded solves and draws elsewhere.                   *)
(* Variant "shared" (one generator per object, seeded once), "global" (global *)
(* generator seeded) and "falsy" (seed 0 means none) are the designs that     *)
(* must be refuted.                                                           *)
EXTENDS Repro
CONSTANTS Variant, Len_

Seeds == {0, 1, 2}
None == 99
Objs == {"a", "b"}
VARIABLES g, own, memo, n, bad
vars == <<g, own, memo, n, bad>>
(* a generator is <<seed, position>>; 98 is fresh entropy, numbered by time *)
Init == g = <<50, 0>> /\ own = [o \in Objs |-> <<None, 0>>] /\ memo = [x \in {} |-> 0] /\ n = 0 /\ bad = {}
Draw == n < Len_ /\ g' = <<g[1], g[2] + 1>> /\ n' = n + 1 /\ UNCHANGED <<own, memo, bad>>
Solve(o, s) ==
  LET fresh == <<98, n>>
      start == CASE Variant = "design" -> IF s = None THEN fresh ELSE <<s, 0>>
                 [] Variant = "falsy" -> IF s \in {None, 0} THEN fresh ELSE <<s, 0>>
                 [] Variant = "shared" -> IF own[o][1] # None THEN own[o] ELSE IF s = None THEN fresh ELSE <<s, 0>>
                 [] Variant = "global" -> IF s = None THEN g ELSE <<s, 0>>
      after == <<start[1], start[2] + 5>>
      e == [key |-> s, seeded |-> s # None, res |-> start, own |-> TRUE, g0 |-> g, g1 |-> IF Variant = "global" THEN after ELSE g, in0 |-> 0, in1 |-> 0]
  IN /\ n < Len_ /\ n' = n + 1
     /\ own' = [own EXCEPT ![o] = after]
     /\ g' = e.g1
     /\ bad' = bad \cup Judge(e, memo)
     /\ memo' = Memo(e, memo)
Next == Draw \/ \E o \in Objs, s \in Seeds \cup {None} : Solve(o, s)
Spec == Init /\ [][Next]_vars
Reproducible == bad = {}
=============================================================================
