--------------------------------- MODULE Io ---------------------------------
(* Reading a stream of lines, numbering and time-stamping its elements, and   *)
(* writing what the pipeline produced.  A line is a sequence of characters.   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
IsNumber(line) == line # <<>> /\ \A k \in DOMAIN line : line[k] \in Digits
(* A number is represented by its digits without leading zeros *)
RECURSIVE Number(_)
Number(line) == IF Len(line) > 1 /\ line[1] = "0" THEN Number(Tail(line)) ELSE line

(* The positions of the lines that become elements *)
Kept(lines, numbers) == SelectSeq([k \in DOMAIN lines |-> k], LAMBDA k : numbers => IsNumber(lines[k]))
(* Element i of the stream comes from the line at position Kept[i + 1] *)
TimeOf(i, pos, own, reassign, unit) == IF reassign THEN i * unit ELSE own[pos]

Count(s, x) == Cardinality({k \in DOMAIN s : s[k] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A k \in DOMAIN s : Count(s, s[k]) = Count(t, s[k])
=============================================================================
