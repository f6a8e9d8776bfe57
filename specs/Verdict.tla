------------------------------ MODULE Verdict ------------------------------
(* C18.  The picklability verdict, the copy and the cross-process check as  *)
(* a machine over what the object does when it is pickled, loaded, asked    *)
(* for its all(), compared and when the comparison's result is used; with   *)
(* the process's warning filters, which the user changes between the calls. *)
EXTENDS VT, Integers, Sequences, FiniteSets, Randomization
CONSTANTS Ops, Wraps, MaxCalls, Filters, Random
VARIABLES pc, call, filter, hist
vars == <<pc, call, filter, hist>>
Pickling == {"PicklingError", "UnpicklingError", "TypeError", "AssertionError", "NotImplementedError"}
Other == {"ValueError", "KeyError", "RuntimeError", "AttributeError", "OSError", "RecursionError", "ZeroDivisionError", "ImportError", "MemoryError", "StopIteration"}
Beyond == {"KeyboardInterrupt", "SystemExit", "GeneratorExit"}
Errors == Pickling \cup Other \cup Beyond
Types == {"same", "sub", "looks", "other"}   \* of the copy: the same type, a subtype, one with the same name, another
Pick(X) == IF Random THEN {RandomElement(IF Len(hist) >= 0 THEN X ELSE {})} ELSE X
None == [op |-> "none", wrap |-> "bare", exact |-> FALSE, safe |-> FALSE, dump |-> "ok", load |-> "ok", typ |-> "same", al |-> "absent", eq |-> "true", res |-> "", verbose |-> FALSE, python |-> "default", filter |-> ""]
Init == pc = "idle" /\ call = None /\ filter = "default" /\ hist = <<>>
\* --- the user ---------------------------------------------------------------
Change == pc = "idle" /\ Len(hist) < MaxCalls /\ \E f \in Pick(Filters) : f # filter /\ (Random \/ hist = <<>>) /\ filter' = f /\ UNCHANGED <<pc, call, hist>>
Same == Random /\ pc = "idle" /\ Len(hist) < MaxCalls /\ \E o \in Pick(Ops) : pc' = "asked" /\ call' = [None EXCEPT !.op = o, !.filter = filter] /\ UNCHANGED <<filter, hist>>
Ask == pc = "idle" /\ Len(hist) < MaxCalls /\ \E o \in Pick(Ops) : pc' = "asked" /\ call' = [None EXCEPT !.op = o, !.filter = filter] /\ UNCHANGED <<filter, hist>>
How == pc = "asked" /\ \E w \in Pick(Wraps) : \E e \in Pick(IF call.op = "pickles" THEN BOOLEAN ELSE {FALSE}) : \E s \in Pick(IF call.op = "pickles" THEN BOOLEAN ELSE {FALSE}) :
   \E v \in Pick(IF call.op = "check" THEN BOOLEAN ELSE {FALSE}) : \E p \in Pick(IF call.op = "check" THEN {"default", "given", "spaces"} ELSE {"default"}) :
   pc' = "dump" /\ call' = [call EXCEPT !.wrap = w, !.exact = e, !.safe = s, !.verbose = v, !.python = p] /\ UNCHANGED <<filter, hist>>
\* --- the answers ----------------------------------------------------------------
Done(c, r) == pc' = "idle" /\ hist' = Append(hist, [c EXCEPT !.res = r]) /\ call' = None /\ UNCHANGED filter
\* an error inside the verdict, the copy or the check
Fail(c, x) == Done(c, IF c.op = "pickles" /\ (x \in Pickling \/ (c.safe /\ x \notin Beyond)) THEN "False" ELSE x)
B(b) == IF b THEN "True" ELSE "False"
Dump == pc = "dump" /\ \E d \in Pick({"ok"}) \cup Pick(Errors) : LET c == [call EXCEPT !.dump = d] IN
   IF d = "ok" THEN pc' = "load" /\ call' = c /\ UNCHANGED <<filter, hist>> ELSE Fail(c, d)
\* the check is done by another process, which only tells whether it succeeded
Load == pc = "load" /\ \E d \in (IF Random THEN Pick({1, 2, 3, 4}) ELSE {1, 2}) : \E l \in (IF d = 1 THEN Pick(Errors) ELSE {"ok"}) : LET c == [call EXCEPT !.load = l] IN
   IF call.op = "check" THEN Done(c, IF call.verbose THEN IF l = "ok" THEN "SUCCESS" ELSE "LOAD FAILED" ELSE "")
   ELSE IF l # "ok" THEN Fail(c, l) ELSE pc' = "type" /\ call' = c /\ UNCHANGED <<filter, hist>>
\* a container's copy always has the container's type, and no all()
Type == pc = "type" /\ \E t \in Pick(Types) : LET c == [call EXCEPT !.typ = t] IN
   IF c.op = "copy" THEN Done(c, "copied") ELSE /\ pc' = (IF c.wrap = "bare" THEN "all" ELSE "eq") /\ call' = c /\ UNCHANGED <<filter, hist>>
All == pc = "all" /\ \E a \in Pick({"absent", "equal", "differ", "warn"} \cup Errors) : LET c == [call EXCEPT !.al = a] IN
   CASE a = "equal" \/ (a = "warn" /\ filter # "error") -> Done(c, "True")
     [] a = "warn" /\ filter = "error" -> Fail(c, "UserWarning")
     [] a = "differ" -> pc' = "verdict" /\ call' = [c EXCEPT !.eq = "false"] /\ UNCHANGED <<filter, hist>>
     [] a \in {"absent", "AttributeError", "TypeError"} -> pc' = "eq" /\ call' = c /\ UNCHANGED <<filter, hist>>
     [] OTHER -> Fail(c, a)
EqOut == {"true", "false", "notimpl", "truthy", "falsy", "arrtrue", "arrfalse", "warn", "boolValueError", "boolTypeError", "arrKeyError", "filter"} \cup Errors
\* the value of the comparison of bare objects; warnings in it are hidden; a container asks for the truth of it itself
Eq == pc = "eq" /\ \E e \in Pick(EqOut) : LET c == [call EXCEPT !.eq = e] bare == c.wrap = "bare" IN
   CASE e \in {"true", "truthy", "warn", "filter"} -> Done(c, "True")
     [] e = "boolValueError" -> Fail(c, "ValueError")
     [] e = "boolTypeError" -> Fail(c, "TypeError")
     [] e = "arrtrue" -> Done(c, "True")
     [] e = "arrKeyError" -> IF bare THEN Fail(c, "KeyError") ELSE Done(c, "True")
     [] e = "arrfalse" /\ ~bare -> Done(c, "True")
     [] e \in Errors -> Fail(c, e)
     [] OTHER -> pc' = "verdict" /\ call' = c /\ UNCHANGED <<filter, hist>>
\* not equal: the type decides, unless exactness is asked for
Judge == pc = "verdict" /\ Done(call, B(~call.exact /\ (call.wrap # "bare" \/ call.typ \in {"same", "looks"})))
Next == Change \/ Ask \/ How \/ Dump \/ Load \/ Type \/ All \/ Eq \/ Judge
Spec == Init /\ [][Next]_vars
End == pc = "idle" /\ Len(hist) = MaxCalls
\* --- what the verdict means ----------------------------------------------------
Copied(h) == h.dump = "ok" /\ h.load = "ok"
True == \A i \in DOMAIN hist : LET h == hist[i] IN h.op = "pickles" /\ h.res = "True" => Copied(h) /\ (h.exact => h.eq \notin {"false", "notimpl", "falsy"} \cup Errors)
Failed == \A i \in DOMAIN hist : LET h == hist[i] IN h.op = "pickles" /\ ~Copied(h) => h.res # "True"
Safe == \A i \in DOMAIN hist : LET h == hist[i] IN h.op = "pickles" /\ h.safe => h.res \in {"True", "False"} \cup Beyond
Stays == [][pc # "idle" => filter' = filter]_vars
Emit == End => EmitRec([calls |-> [i \in DOMAIN hist |-> hist[i]]])
=============================================================================
