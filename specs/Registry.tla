------------------------------ MODULE Registry ------------------------------
(* C13.  Functions are registered for types and the extension of the        *)
(* standard (Python) pickler is switched on and off, in any order.  After   *)
(* every step, what pickling an instance of each type does, with dill and   *)
(* with the standard pickler.  "std" is what happens without registration:  *)
(* dill's own treatment in dill, the standard one in the standard pickler.  *)
EXTENDS VT, Naturals, Sequences, FiniteSets
CONSTANTS Types, Funs, MaxOps, AtImport
VARIABLES dill,     \* type -> "std" or the registered function
          stock,    \* type -> "std", "dill" or a function
          on,       \* is the extension on
          stale,    \* types registered since the extension was last switched on
          hist
vars == <<dill, stock, on, stale, hist>>
\* types that dill treats itself: extending makes the standard pickler do the same
\* (pickling any object uses functions, so none is registered for them)
Handled == {"property", "list", "lambda"} \cap Types
AsDill(t, d) == IF d[t] # "std" THEN d[t] ELSE IF t \in Handled THEN "dill" ELSE "std"
Extended(d) == [t \in Types |-> AsDill(t, d)]
Standard == [t \in Types |-> "std"]
\* a type registered while the extension is on may or may not be picked up before the next extend()
Allowed(t, d, s, o, st) == {s[t]} \cup (IF o /\ t \in st THEN {AsDill(t, d)} ELSE {})
Obs(d, s, o, st) == [t \in Types |-> [dill |-> d[t], stock |-> Allowed(t, d, s, o, st)]]
Log(e) == hist' = Append(hist, [op |-> e, obs |-> Obs(dill', stock', on', stale')])
Init == /\ dill = Standard /\ on = AtImport /\ stale = {}
        /\ stock = (IF AtImport THEN Extended(Standard) ELSE Standard)
        /\ hist = <<[op |-> [do |-> "start"], obs |-> Obs(dill, stock, on, stale)]>>
Register(t, f) == /\ dill' = [dill EXCEPT ![t] = f] /\ stale' = stale \cup {t} /\ UNCHANGED <<stock, on>>
                  /\ Log([do |-> "register", t |-> t, f |-> f])
On == /\ stock' = Extended(dill) /\ on' = TRUE /\ stale' = {} /\ UNCHANGED dill /\ Log([do |-> "on"])
Off == /\ stock' = Standard /\ on' = FALSE /\ stale' = {} /\ UNCHANGED dill /\ Log([do |-> "off"])
Next == Len(hist) <= MaxOps /\ ((\E t \in Types \ {"lambda"}, f \in Funs : Register(t, f)) \/ On \/ Off)
Spec == Init /\ [][Next]_vars
OffIsStandard == ~on => stock = Standard
OnIsDill == on /\ stale = {} => stock = Extended(dill)
Unaffected == [][on' # on => dill' = dill]_vars
Emit == Len(hist) = MaxOps + 1 => EmitRec([hist |-> hist])
=============================================================================
