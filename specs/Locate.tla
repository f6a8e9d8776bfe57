------------------------------ MODULE Locate ------------------------------
(* C04.  A subject (function, class, or instance of a class) is defined in  *)
(* a module; then the namespace changes in every possible way before it is  *)
(* pickled, and again before it is loaded.  Stored by reference iff looking *)
(* up its module and qualified name yields that very object at that moment. *)
EXTENDS VT, Naturals, Sequences, FiniteSets
CONSTANTS MaxPre, MaxPost, Kinds, Places, Paths

\* bindings: 0 unbound, 1 the subject, 2 an impostor of the same name, 3 something else, 4 the definition of a re-import
VARIABLES kind, place, path, byref,
          reg,     \* what sys.modules has for the module name: "orig", "none", "repl", "fresh"
          ns,      \* module object -> name -> binding
          outer,   \* nested path: the class that holds the subject is still there
          md, qn,  \* the subject's __module__ and __qualname__
          pc, hist, stored, res, npre,
          bound    \* stored by value with a reference to the namespace of its module
vars == <<kind, place, path, byref, reg, ns, outer, md, qn, pc, hist, stored, res, npre, bound>>
Mods == {"orig", "repl", "fresh"}
Names == {"Q", "E"}

Init == /\ kind \in Kinds /\ place \in Places /\ path \in Paths /\ byref \in BOOLEAN
        /\ (place = "main" => kind # "inst") /\ (path = "locals" => kind # "inst") /\ (byref => kind # "func")
        /\ reg = "orig" /\ outer = TRUE /\ md = "ok" /\ qn = "ok" /\ pc = "def" /\ hist = <<>> /\ stored = "" /\ res = "" /\ npre = 0 /\ bound = FALSE
        /\ ns = [m \in Mods |-> [n \in Names |->
                   IF m = "orig" /\ n = "Q" /\ path # "locals" THEN 1
                   ELSE IF m = "repl" /\ n = "Q" THEN 2 ELSE IF m = "fresh" /\ n = "Q" /\ path # "locals" THEN 4 ELSE 0]]
Step(a) == hist' = Append(hist, a)
U == UNCHANGED <<kind, place, path, byref, pc, stored, res, bound>>
\* (a function that does not name its module carries a snapshot of its namespace, whose other entries are not the subject here)
Snapshots == kind = "func" /\ ~bound /\ stored = "value" /\ (place # "main" \/ md # "ok")
Can == /\ (pc = "stored" => ~Snapshots)
       /\ pc \in {"def", "stored"} /\ npre < (IF pc = "def" THEN MaxPre ELSE MaxPost)
       /\ npre' = npre + 1
Bind(m, n, b) == /\ ns[m][n] # b /\ ns' = [ns EXCEPT ![m][n] = b]
Change ==
  /\ Can /\ U
  /\ \/ /\ \E m \in {"orig", "repl"}, n \in Names, b \in {0, 1, 2, 3} :
             /\ (m = "repl" => reg = "repl") /\ (n = "Q" => path # "locals") /\ (n = "Q" /\ m = "orig" => outer)
             /\ Bind(m, n, b) /\ Step(<<"bind", m, n, b>>)
        /\ UNCHANGED <<reg, outer, md, qn>>
     \/ /\ place # "main" /\ \E r \in {"none", "repl", "orig"} : r # reg /\ reg' = r /\ Step(<<"reg", r>>)
        /\ UNCHANGED <<ns, outer, md, qn>>
     \/ /\ path = "nested" /\ outer /\ outer' = FALSE /\ Step(<<"outer">>)
        /\ UNCHANGED <<ns, reg, md, qn>>
     \/ /\ pc = "def" /\ \E x \in {"none", "main", "missing"} : x # md /\ ~(place = "main" /\ x = "main") /\ ~(x = "none" /\ kind # "func")
                                                             /\ ~(x = "main" /\ kind = "inst")
                                    /\ md' = x /\ Step(<<"module", x>>)
        /\ UNCHANGED <<ns, reg, outer, qn>>
     \/ /\ pc = "def" /\ \E x \in {"elsewhere", "locals"} : x # qn /\ qn' = x /\ Step(<<"qualname", x>>)
        /\ UNCHANGED <<ns, reg, outer, md>>
\* a module missing from sys.modules is imported: only possible when it is a file
Imported == IF reg = "none" THEN IF place = "file" THEN "fresh" ELSE "none" ELSE reg
Lookup(m) == \* what the name of the stored reference leads to
  IF m = "none" THEN 0
  ELSE IF qn = "elsewhere" THEN ns[m]["E"]
  ELSE IF qn = "locals" \/ path = "locals" THEN 0
  ELSE IF path = "nested" /\ m = "orig" /\ ~outer THEN 0
  ELSE ns[m]["Q"]
\* the module named by the subject itself
Own == IF md = "ok" THEN Imported ELSE "none"
Importing == md = "ok" /\ reg = "none" /\ place = "file"
Located == md = "ok" /\ Lookup(Own) = 1
ByName == byref /\ kind # "func"          \* classes by name on request, located or not
Dump == /\ pc = "def" /\ pc' = "stored" /\ npre' = 0
        /\ stored' = IF place = "main"
                     THEN IF ByName /\ md \in {"ok", "main"} THEN IF Lookup(IF md = "ok" THEN Own ELSE "none") = 1 THEN "ref" ELSE "error"
                          ELSE IF ByName THEN "error" ELSE "value"
                     ELSE IF Located THEN "ref"
                     ELSE IF ByName THEN "error" ELSE "value"
        /\ reg' = IF Importing THEN "fresh" ELSE reg
        /\ bound' = (kind = "func" /\ place # "main" /\ md = "ok" /\ Own = "orig" /\ stored' = "value")
        /\ UNCHANGED <<kind, place, path, byref, ns, outer, md, qn, hist, res>>
Load == /\ pc = "stored" /\ pc' = "loaded"
        /\ res' = CASE stored = "error" -> "none"
                    \* a function stored by value stays bound to the namespace of its (importable) module
                    [] stored = "value" -> IF bound /\ Imported = "none" THEN "error" ELSE "copy"
                    [] stored = "ref" -> IF Lookup(Own) = 0 THEN "error" ELSE "live"
        /\ UNCHANGED <<kind, place, path, byref, ns, outer, md, qn, hist, stored, npre, reg, bound>>
DumpMark == Dump /\ TRUE
Next == Change \/ DumpMark \/ Load
Spec == Init /\ [][Next]_vars

RefOnlyIfFound == (pc = "stored" /\ npre = 0 /\ stored = "ref") => Lookup(IF md = "ok" THEN Imported ELSE "none") = 1
NoRebindStored == (pc = "loaded" /\ stored = "value") => res \in {"copy", "error"}
Pre == Len(hist)
Emit == pc = "loaded" => EmitRec([kind |-> kind, place |-> place, path |-> path, byref |-> byref, hist |-> hist, post |-> npre,
                                  stored |-> stored, res |-> res, at |-> IF stored = "ref" /\ res = "live" THEN Lookup(Own) ELSE 0])
===========================================================================
