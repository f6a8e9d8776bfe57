------------------------------ MODULE Threads ------------------------------
(* C23.  A few threads, each with one operation that runs through a known   *)
(* number of points; a scheduler which stops a thread before a point and    *)
(* lets another one run.  Some stretches of an operation (its windows) work *)
(* on something of the process - filters, streams, the import system.  As   *)
(* long as windows only ever touch what is the thread's own (Private), what *)
(* an operation gives is what it gives alone and the process is afterwards  *)
(* as if they had run one after another.  The specification says so, TLC    *)
(* checks it (and refutes it for windows that save, change and restore what *)
(* is shared), and its schedules are run on the real code.                  *)
EXTENDS VT, Integers, Sequences, FiniteSets, Randomization
CONSTANTS Ops,        \* operation -> number of points
          Windows,    \* operation -> set of points inside a window
          Cands,      \* operation -> the points a schedule may stop it at
          NThreads, MaxSwitches, Private, Random, Tuples
VARIABLES op, pc, shared, mine, saved, seen, sched, phase
vars == <<op, pc, shared, mine, saved, seen, sched, phase>>
T == 1..NThreads
Orig == 0
Pick(S) == IF Random THEN {RandomElement(IF Len(sched) >= 0 THEN S ELSE {})} ELSE S
Init == op = <<>> /\ pc = <<>> /\ shared = Orig /\ mine = [t \in T |-> Orig] /\ saved = [t \in T |-> -1] /\ seen = [t \in T |-> {}] /\ sched = <<>> /\ phase = "choose"
Choose == phase = "choose" /\ (\E o \in Pick(Tuples) : op' = o /\ pc' = [t \in T |-> 0]) /\ phase' = "run" /\ UNCHANGED <<shared, mine, saved, seen, sched>>
InW(t, p) == p \in Windows[op[t]]
Last(t) == IF sched = <<>> THEN FALSE ELSE sched[Len(sched)][1] = t
\* Thread t runs up to point p.  What it meets on its way in is what it works with: it changes
\* it on entering a window and puts back what it saved on leaving.
RunTo(t, p) ==
  LET wasIn == pc[t] > 0 /\ InW(t, pc[t]) /\ saved[t] # -1
      isIn == p <= Ops[op[t]] /\ InW(t, p)
      sees == IF Private THEN mine[t] ELSE shared
      enter == isIn /\ ~wasIn
      leave == wasIn /\ ~isIn
      val == IF enter THEN t ELSE IF leave THEN saved[t] ELSE sees IN
  /\ seen' = [seen EXCEPT ![t] = @ \cup {IF wasIn THEN IF sees = t THEN Orig ELSE 100 + sees ELSE sees}]
  /\ saved' = [saved EXCEPT ![t] = IF enter THEN sees ELSE IF leave THEN -1 ELSE @]
  /\ IF Private THEN mine' = [mine EXCEPT ![t] = val] /\ UNCHANGED shared ELSE shared' = val /\ UNCHANGED mine
  /\ pc' = [pc EXCEPT ![t] = p]
  /\ sched' = Append(sched, <<t, p>>)
  /\ UNCHANGED <<op, phase>>
Ready(t) == pc[t] <= Ops[op[t]]
Later(t) == {p \in Cands[op[t]] : p > pc[t]}
Stop == phase = "run" /\ Len(sched) < MaxSwitches /\ \E t \in Pick({u \in T : Ready(u) /\ ~Last(u) /\ Later(u) # {}}) : \E p \in Pick(Later(t)) : RunTo(t, p)
Finish == phase = "run" /\ (Len(sched) = MaxSwitches \/ (Len(sched) >= 1 /\ \A t \in T : Last(t) \/ ~Ready(t) \/ Later(t) = {})) /\ phase' = "finish" /\ UNCHANGED <<op, pc, shared, mine, saved, seen, sched>>
End1 == phase = "finish" /\ (\E t \in Pick({u \in T : Ready(u)}) : RunTo(t, Ops[op[t]] + 1))
Next == Choose \/ Stop \/ Finish \/ End1
Spec == Init /\ [][Next]_vars
Done == phase = "finish" /\ \A t \in T : ~Ready(t)
\* every operation meets only what it would meet alone; afterwards the process is as before
Alone == \A t \in DOMAIN pc : seen[t] \subseteq {Orig}
Restored == Done => shared = Orig
Emit == Done => EmitRec([ops |-> op, sched |-> sched])
=============================================================================
