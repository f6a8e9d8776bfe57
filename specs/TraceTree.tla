------------------------------ MODULE TraceTree ------------------------------
(* C15 (trace validation).  Recorded trace logs: the lines of every pickling *)
(* are balanced and nested, drawn at their depth, starting at depth 1 for    *)
(* each pickling whatever happened before.  Events of a recording:           *)
(* <<"begin">>, <<"end", ok>> of a pickling; <<"open", depth, label>>,       *)
(* <<"close", depth, label>> of the lines.                                   *)
EXTENDS VT, Integers, Sequences
VARIABLES tid, pc, open, err
vars == <<tid, pc, open, err>>
Init == tid \in 1..Len(Traces) /\ pc = 1 /\ open = <<>> /\ err = ""
T == Traces[tid]
E == T[pc]
N == Len(open)
Top == open[N]
Put(s) == open' = [open EXCEPT ![N] = s] /\ err' = err
Fail(c) == err' = c /\ open' = open
Step == /\ pc <= Len(T) /\ err = "" /\ pc' = pc + 1 /\ tid' = tid
        /\ CASE E[1] = "begin" -> open' = Append(open, <<>>) /\ err' = err
             [] E[1] = "end" -> IF E[2] /\ Top # <<>> THEN Fail("lines without an end in a finished pickling") ELSE open' = SubSeq(open, 1, N - 1) /\ err' = err
             [] N = 0 -> Fail("line outside a pickling")
             [] E[1] = "open" -> IF E[2] # Len(Top) + 1 THEN Fail("a line opens at the wrong depth") ELSE Put(Append(Top, E[3]))
             [] E[1] = "close" -> IF Top = <<>> \/ E[2] # Len(Top) THEN Fail("a line closes at the wrong depth")
                                  ELSE IF E[3] # Top[Len(Top)] THEN Fail("a line closes another object's line") ELSE Put(SubSeq(Top, 1, Len(Top) - 1))
             [] OTHER -> Fail("not a trace line")
Spec == Init /\ [][Step]_vars
Emit == /\ err = "" /\ pc > Len(T) => EmitRec([tid |-> tid, ok |-> TRUE])
        /\ err # "" => EmitRec([tid |-> tid, ok |-> FALSE, clause |-> err, pc |-> pc - 1])
=============================================================================
