-------------------------------- MODULE IoMC --------------------------------
(* A reader that takes line after line, checked against the declarative       *)
(* meaning of Io; variants are wrong readers the invariants must refute.      *)
EXTENDS Io
CONSTANTS Variant, MaxLines, MaxLen, Emit
Alphabet == {"0", "7", " ", "-"}
LinesOf(n) == UNION {[1..k -> Alphabet] : k \in 0..n}
VARIABLES lines, reassign, pos, next, stream, sink
vars == <<lines, reassign, pos, next, stream, sink>>
Own == [k \in 1..MaxLines |-> 10 + ((k * 7) % 3)]

Init == /\ lines \in UNION {[1..n -> LinesOf(MaxLen)] : n \in 0..MaxLines}
        /\ reassign \in BOOLEAN
        /\ pos = 1 /\ next = 0 /\ stream = <<>> /\ sink = <<>>
        /\ IF Emit /\ reassign THEN PrintT(<<"PLAN", lines>>) ELSE TRUE
Trim(l) == IF l # <<>> /\ l[1] = " " THEN Tail(l) ELSE l
Accepts(l) ==
  CASE Variant = "prefix" -> l # <<>> /\ l[1] \in Digits
    [] Variant = "trim" -> IsNumber(Trim(l))
    [] Variant = "signed" -> IsNumber(l) \/ (Len(l) > 1 /\ l[1] = "-" /\ IsNumber(Tail(l)))
    [] Variant = "blank" -> \A k \in DOMAIN l : l[k] \in Digits
    [] Variant = "nozero" -> IsNumber(l) /\ Number(l) # <<"0">>
    [] OTHER -> IsNumber(l)
Read == /\ pos <= Len(lines)
        /\ LET l == lines[pos] IN
           IF Accepts(l)
           THEN /\ stream' = Append(stream, [i |-> next, v |-> IF Variant = "raw" THEN l ELSE Number(l), t |-> IF reassign THEN (IF Variant = "bypos" THEN pos - 1 ELSE next) ELSE Own[pos]])
                /\ next' = next + 1
           ELSE /\ stream' = stream
                /\ next' = IF Variant = "countall" THEN next + 1 ELSE next
        /\ pos' = pos + 1 /\ UNCHANGED <<lines, reassign, sink>>
(* outputs are written in any order, each once *)
Write == /\ pos > Len(lines)
         /\ \E k \in DOMAIN stream :
              /\ Count(sink, stream[k]) = 0
              /\ sink' = Append(sink, stream[k])
         /\ UNCHANGED <<lines, reassign, pos, next, stream>>
Next == Read \/ Write
Spec == Init /\ [][Next]_vars

InvStream == pos > Len(lines) =>
  LET kept == Kept(lines, TRUE) IN
  /\ Len(stream) = Len(kept)
  /\ \A k \in DOMAIN stream : /\ stream[k].i = k - 1
                              /\ stream[k].v = Number(lines[kept[k]])
                              /\ stream[k].t = TimeOf(k - 1, kept[k], Own, reassign, 1)
InvSink == Len(sink) = Len(stream) => SameBag(sink, stream)
=============================================================================
