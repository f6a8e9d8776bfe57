------------------------------- MODULE Streams -------------------------------
(* C25 (generator).  Objects are written to one stream one after another -   *)
(* by separate calls, or by one pickler that remembers what it has written - *)
(* and read back in between by separate calls or one unpickler.  Reading     *)
(* yields the objects in order, each read stops where its object ends, and   *)
(* within one pickler and unpickler the same object comes back as the same.  *)
EXTENDS VT, Naturals, Sequences, FiniteSets, Randomization
CONSTANTS MaxOps, Objs, Protos, Options, Modes, Single, Random
Writers == {"dump", "dumps", "pickler"}
Readers == {"load", "loads", "unpickler", "stock", "stockpy"}
VARIABLES mode, proto, opt, writ, rd, seen, hist
vars == <<mode, proto, opt, writ, rd, seen, hist>>
Pick(S) == IF Random THEN {RandomElement(IF Len(hist) >= 0 THEN S ELSE {})} ELSE S
Init == mode \in Modes /\ proto \in Protos /\ opt \in Options /\ writ = <<>> /\ rd = 0 /\ seen = <<>> /\ hist = <<>>
Log(e) == hist' = Append(hist, e)
Write == \E o \in Pick(Objs), w \in IF mode = "session" THEN {"same"} ELSE IF Single THEN {"dumps"} ELSE Pick(Writers) :
    writ' = Append(writ, o) /\ UNCHANGED <<mode, proto, opt, rd, seen>> /\ Log([do |-> "write", o |-> o, how |-> w])
\* the unpickler is made for the stream as it is then; it reads on when more is written
Read == rd < Len(writ) /\ ~Single /\ \E r \in IF mode = "session" THEN {"same"} ELSE Pick(Readers) :
    LET before == {i \in 1..rd : writ[i] = writ[rd+1]} IN
    rd' = rd + 1 /\ seen' = Append(seen, writ[rd+1]) /\ UNCHANGED <<mode, proto, opt, writ>>
    /\ Log([do |-> "read", how |-> r, o |-> writ[rd+1], same |-> IF mode = "session" /\ before # {} THEN CHOOSE i \in before : \A j \in before : i <= j ELSE 0])
\* without changing the protocol or the options the pickler forgets what it has written
Next == Len(hist) < MaxOps /\ (Write \/ Read)
Spec == Init /\ [][Next]_vars
InOrder == seen = SubSeq(writ, 1, rd)
Emit == Len(hist) = MaxOps => EmitRec([mode |-> mode, proto |-> proto, opt |-> opt, hist |-> hist])
=============================================================================
