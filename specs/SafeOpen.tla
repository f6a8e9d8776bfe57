------------------------------ MODULE SafeOpen ------------------------------
(* C11.  A session file is opened by path while another process may change  *)
(* what the path names between any two file-system calls.  The caller       *)
(* follows dill's design (try to create; otherwise look, then open without  *)
(* following); the invariants say that whatever the other process does the  *)
(* target of a link is never used, and Allowed says which outcomes a caller *)
(* following any safe design may have; a replay judges dill by Allowed.     *)
EXTENDS VT, Naturals, Sequences, FiniteSets
CONSTANTS Modes,     \* subset of {"write", "read", "asdict"}
          States,    \* what the path may name
          MaxActs, Instants, Contents   \* Contents: "good" or "bad" (the pickling itself fails)
VARIABLES mode, cont, path, first, pc, acts, now, seen, out
vars == <<mode, cont, path, first, pc, acts, now, seen, out>>
Links == {"link", "linknew", "linkdir", "linkloop", "linkown"}
Regular == {"mine", "other", "shared"}  \* own file, a file put there by the other process, a file with a second name
Init == /\ mode \in Modes /\ cont \in Contents /\ path \in States /\ first = path /\ pc = (IF mode = "write" THEN "create" ELSE "look")
        /\ acts = <<>> /\ now = 1 /\ seen = <<{path}>> /\ out = "none"
Goto(p) == pc' = p /\ UNCHANGED out
Finish(o) == pc' = "done" /\ out' = o
Tick == now' = now + 1
Caller == /\ now < Instants /\ Tick /\ UNCHANGED <<mode, cont, acts, first>>
          /\ \/ /\ pc = "create"
                /\ IF path = "absent" THEN path' = "created" /\ Finish("created") /\ seen' = seen   \* (a file with the permissions of the owner)
                                      ELSE Goto("look") /\ UNCHANGED <<path, seen>>
             \/ /\ pc = "look" /\ UNCHANGED <<path, seen>>
                /\ IF path \in Links THEN Finish("refused") ELSE Goto("open")
             \/ /\ pc = "open" /\ UNCHANGED <<path, seen>>
                /\ Finish(CASE path \in Regular \cup {"created"} -> path [] path = "absent" -> "missing" [] OTHER -> "refused")
\* the other process changes what the path names before the caller's next call
Other(s) == /\ pc # "done" /\ Len(acts) < MaxActs /\ s # path /\ now < Instants
            /\ path' = s /\ acts' = Append(acts, [at |-> now, to |-> s])
            /\ seen' = Append(seen, seen[Len(seen)] \cup {s})
            /\ UNCHANGED <<mode, cont, pc, now, out, first>>
Next == Caller \/ \E s \in States : Other(s)
Spec == Init /\ [][Next]_vars
\* which outcomes are right when the path named these things during the call
Allowed(s) == {x \in Regular \cup {"created", "missing", "refused"} :
   \/ x \in Regular /\ x \in s
   \/ x = "created" /\ mode = "write" /\ "absent" \in s
   \/ x = "missing" /\ "absent" \in s /\ (mode # "write" \/ Cardinality(s) > 1)
   \/ x = "refused" /\ (s \cap (Links \cup {"dir"}) # {})}
\* the target of a link is never opened, and the design gives only right outcomes
NeverFollows == out \notin Links
OutcomeAllowed == out # "none" => out \in Allowed(seen[Len(seen)])
\* without interference there is exactly one outcome
Determined == acts = <<>> => Cardinality(Allowed(seen[1])) = 1
Emit == pc = "done" => EmitRec([mode |-> mode, cont |-> cont, first |-> first, acts |-> acts, allowed |-> [i \in DOMAIN seen |-> Allowed(seen[i])]])
=============================================================================
