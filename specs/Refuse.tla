------------------------------ MODULE Refuse ------------------------------
(* C10 (and the failing half of C09).  A saved session of one module is     *)
(* loaded into another, through different streams, intact or damaged.  It   *)
(* is accepted only by the module of the same name and kind; a refusal      *)
(* leaves the modules and the table of imported modules as they were, so    *)
(* that what comes next behaves as if it had not happened.                  *)
EXTENDS VT, Naturals, Sequences, FiniteSets
CONSTANTS Mods, Streams, Damages, Cuts, MaxAttempts, Entries, Presence
\* Mods: records [kind |-> main/file/sub/runtime/stale, name |-> ...]
Importable == {"main", "file", "sub"}
VARIABLES hist, tries
vars == <<hist, tries>>
Init == hist = <<>> /\ tries = 0
Targets == {<<"none", "", "">>, <<"notmodule", "", "">>, <<"str", "", "vt_missing">>} \cup
           {<<"obj", m.kind, m.name>> : m \in Mods} \cup {<<"str", "", m.name>> : m \in {m \in Mods : m.kind \in Importable}}
Peekable(s) == s # "raw"
Matches(saved, t) == \/ t[1] = "none"
                     \/ t[1] = "obj" /\ t[2] = saved.kind /\ t[3] = saved.name
                     \/ t[1] = "str" /\ saved.kind \in Importable /\ t[3] = saved.name
Outcome(saved, t, s, d, entry) ==
  IF d # "ok" THEN "error"
  ELSE IF entry # "load" THEN IF Peekable(s) THEN "ok" ELSE "error"
  ELSE IF ~Matches(saved, t) THEN "error"
  ELSE IF ~Peekable(s) /\ t[1] = "none" THEN "error"
  ELSE "ok"
Attempt ==
  /\ tries < MaxAttempts /\ tries' = tries + 1
  /\ \E saved \in {m \in Mods : m.kind # "stale"}, t \in Targets, s \in Streams, d \in Damages, e \in Entries, c \in Cuts, p \in Presence :
       /\ (e # "load" => t[1] = "none") /\ (d # "cut" => c = 0)
       \* the module of the session is not imported yet (and no such object is at hand)
       /\ (~p => saved.kind \in {"file", "sub"} /\ t[1] \in {"none", "str"} /\ t[3] \in {"", saved.name})
       /\ (d # "ok" => t[1] \in {"none", "obj"}) /\ (d # "ok" /\ t[1] = "obj" => Matches(saved, t))
       /\ hist' = Append(hist, [saved |-> saved, target |-> t, stream |-> s, damage |-> d, cut |-> c, entry |-> e, present |-> p, imports |-> IF e = "asdict" THEN "no" ELSE "maybe", out |-> Outcome(saved, t, s, d, e),
                                \* without looking ahead, the module of another name is found out too late to spare it
                                \* (and a module that is no longer the registered one is told apart only by what has been loaded)
                                spares |-> IF (Peekable(s) \/ Matches(saved, t)) /\ t[2] # "stale" THEN "all" ELSE "target"])
Next == Attempt
Spec == Init /\ [][Next]_vars
OnlyMatching == \A i \in DOMAIN hist : hist[i].out = "ok" /\ hist[i].entry = "load" => hist[i].damage = "ok" /\ Matches(hist[i].saved, hist[i].target)
Emit == tries = MaxAttempts => EmitRec([hist |-> hist])
===========================================================================
