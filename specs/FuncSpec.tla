----------------------------- MODULE FuncSpec -----------------------------
(* C02.  One function, as the tuple of everything that can be observed of   *)
(* it.  It is defined with some kind, then features are added one by one    *)
(* (each action changes what its observation must be), then it is pickled   *)
(* under some options and loaded in the same or a fresh process.  The       *)
(* specification is that the copy's observation is the original's.          *)
EXTENDS VT, Naturals, Sequences, FiniteSets

CONSTANTS MaxF,      \* features added to a function
          Opts       \* option rows

Kinds == {"plain", "nested", "lambda", "gen", "coro", "agen", "method", "toplambda"}
Places == {"detached", "main", "nestedmod"}     \* where its globals live: no importable module / main / importable module
VARIABLES f, phase, run
vars == <<f, phase, run>>

Plain == [pos |-> "none", npo |-> 0, kwonly |-> "none", star |-> "no", ann |-> "none", doc |-> "none", attrs |-> "none",
          rename |-> "no", closure |-> "none", cellv |-> "int", glob |-> "none", flags |-> "none", nest |-> "none"]
Feature ==
  [pos |-> {"one", "onedef", "twodef", "def1of2", "mutdef", "replaced", "emptied"},
   npo |-> {1},
   kwonly |-> {"nodef", "def", "mixed", "replaced", "added", "emptied"},
   star |-> {"args", "kwargs", "both"},
   ann |-> {"types", "strings", "ret", "replaced", "emptied"},
   doc |-> {"code", "set", "codeset", "unicode", "empty", "cleared"},
   attrs |-> {"one", "two", "nonident", "self", "wrapped", "mutable"},
   rename |-> {"name", "qualname", "both", "module", "modnone", "same"},
   closure |-> {"one", "two", "shared", "self", "unset", "rebound"},
   cellv |-> {"list", "func", "none"},
   glob |-> {"const", "func", "builtin", "missing", "rebound"},
   flags |-> {"const", "bigint", "nestedconst", "frozenset", "ellipsis", "bytes"},
   nest |-> {"inner", "comp", "lam", "cls", "deep"}]

Init == /\ \E k \in Kinds, p \in Places : f = [kind |-> k, place |-> p, feat |-> Plain, n |-> 0]
        /\ phase = "def" /\ run = [none |-> 0]

Order == <<"pos","npo","kwonly","star","ann","doc","attrs","rename","closure","cellv","glob","flags","nest">>
Last(x) == LET S == { i \in 1..Len(Order) : x.feat[Order[i]] # Plain[Order[i]] }
           IN IF S = {} THEN 0 ELSE CHOOSE m \in S : \A y \in S : y <= m
Nested(k) == k \in {"nested", "lambda", "gen", "coro", "agen"}
Possible(x, d, v) ==
  /\ d = "npo" => x.feat.pos \in {"one", "twodef", "def1of2"}
  /\ d = "closure" => Nested(x.kind)
  /\ d = "cellv" => x.feat.closure \in {"one", "two", "shared", "rebound"}
  /\ d = "doc" /\ v \in {"code", "codeset", "cleared"} => x.kind \notin {"lambda", "toplambda"}
  /\ d = "ann" /\ v \in {"types", "strings", "ret"} => x.kind \notin {"lambda", "toplambda"}
  /\ d = "nest" /\ v \in {"cls"} => x.kind \notin {"lambda", "toplambda", "agen"}
  /\ d = "attrs" /\ v = "self" => TRUE
Add == /\ phase = "def" /\ f.n < MaxF
       /\ \E i \in (Last(f) + 1)..Len(Order) : \E v \in Feature[Order[i]] :
            /\ Possible(f, Order[i], v)
            /\ f' = [f EXCEPT !.feat[Order[i]] = v, !.n = @ + 1]
       /\ UNCHANGED <<phase, run>>

\* what the original must look like; the copy must look the same.  "closure" etc. are compared structurally.
ObsName(x) == CASE x.feat.rename \in {"name", "both", "same"} -> "renamed"
                [] x.kind \in {"lambda", "toplambda"} -> "<lambda>" [] OTHER -> "f"
ObsDoc(x) == CASE x.feat.doc \in {"none", "cleared"} -> "None" [] x.feat.doc = "code" -> "code doc" [] x.feat.doc = "unicode" -> "d\\u00e9\\u4e2d"
               [] x.feat.doc = "empty" -> "" [] OTHER -> "set doc"
ObsNDef(x) == CASE x.feat.pos \in {"none", "one", "emptied"} -> 0 [] x.feat.pos \in {"twodef", "replaced"} -> 2 [] OTHER -> 1
ObsNKw(x) == CASE x.feat.kwonly \in {"none", "nodef", "emptied"} -> 0 [] OTHER -> 1
ObsNCell(x) == CASE x.feat.closure = "none" -> 0 [] x.feat.closure \in {"two", "shared"} -> 2 [] OTHER -> 1
ObsMod(x) == CASE x.feat.rename = "module" -> "other_mod" [] x.feat.rename = "modnone" -> "None"
               [] x.place = "detached" -> "vt_nomod" [] x.place = "main" -> "__main__" [] OTHER -> "vt_funcmod"
Expected(x) == [name |-> ObsName(x), doc |-> ObsDoc(x), ndef |-> ObsNDef(x), nkw |-> ObsNKw(x), ncell |-> ObsNCell(x), module |-> ObsMod(x)]

DumpLoad == /\ phase = "def"
            /\ \E o \in Opts, w \in {"same", "fresh"} :
                 /\ (w = "fresh" /\ f.place = "nestedmod" /\ f.feat.glob = "rebound" => o.recurse)  \* bound to the live module
                 /\ (w = "fresh" => f.place # "main" \/ f.feat.glob \in {"none", "builtin", "missing"} \/ o.recurse)
                 /\ run' = [opt |-> o, where |-> w, obs |-> Expected(f)]
            /\ phase' = "done" /\ UNCHANGED f
Next == Add \/ DumpLoad
Spec == Init /\ [][Next]_vars

\* by construction of the machine the copy is the original; sanity of the expectation
Sane == phase = "done" => /\ run.obs.ncell > 0 => Nested(f.kind)
                          /\ run.obs.name # ""
Emit == phase = "done" => EmitRec([f |-> f, opt |-> run.opt, where |-> run.where, obs |-> run.obs])
===========================================================================
