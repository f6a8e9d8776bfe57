------------------------------ MODULE Globals ------------------------------
(* C03.  A program is a graph of references between the functions of a      *)
(* module, each made in some syntactic way; the module's namespace is a     *)
(* versioned map.  One function ("root", made by a factory, so it has to be *)
(* stored by value) is pickled, names are rebound before the dump, between  *)
(* dump and load, and after the load; the copy is evaluated each time.      *)
EXTENDS VT, Naturals, Sequences, FiniteSets

CONSTANTS Targets,   \* names that may be referred to
          Vias,      \* ways of referring
          MaxRefs,   \* references in the whole program
          Places, Opts

Funs  == {"root", "g", "h"}
Data  == {"d1", "d2"}
Named == {"g", "h", "d1", "d2", "K", "u", "math"}     \* everything bound in the module
RealVia(v) == v \notin {"attr", "shadow", "kwname", "string"}

VARIABLES refs,    \* function -> sequence of [t, v]
          place, opt, ns, snap, phase, obs, rb
vars == <<refs, place, opt, ns, snap, phase, obs, rb>>

NRefs == Len(refs["root"]) + Len(refs["g"]) + Len(refs["h"])
\* what stands in a function's keyword defaults is not looked up by name
NameVia(v) == RealVia(v) /\ v # "kwdef"
NamedF(R, f) == { R[f][i].t : i \in { j \in 1..Len(R[f]) : NameVia(R[f][j].v) } }
RECURSIVE NClo(_, _)
NClo(R, S) == LET S2 == S \cup UNION { IF f \in Funs THEN NamedF(R, f) ELSE {} : f \in S } IN IF S2 = S THEN S ELSE NClo(R, S2)
DirectF(R, f) == { R[f][i].t : i \in { j \in 1..Len(R[f]) : RealVia(R[f][j].v) } }
RECURSIVE Clo(_, _)
Clo(R, S) == LET S2 == S \cup UNION { IF f \in Funs THEN DirectF(R, f) ELSE {} : f \in S } IN IF S2 = S THEN S ELSE Clo(R, S2)
ReachNames(R) == (NClo(R, {"root"}) \ {"root"}) \cap Named
\* names only reached through the class's method
MayNames(R) == ReachNames(R) \cup (IF "K" \in ReachNames(R) THEN {"d2"} ELSE {})

ByRefFuns == IF place = "module" THEN {"g", "h", "K"} ELSE {}
Live == ~opt.recurse /\ place \in {"main", "module"}

\* value of function f at depth n, reading data through `own`; functions stored by reference read the live namespace
RECURSIVE Eval(_, _, _, _), FoldR(_, _, _, _)
RefVal(R, e, r, n) ==
  CASE ~RealVia(r.v) -> "7" [] r.v = "store" -> "ok"
    [] r.t \in Data -> r.t \o ToString(e.own[r.t])
    [] r.t = "K" -> "K" \o ToString(IF "K" \in e.byref THEN e.live["d2"] ELSE e.own["d2"])
    [] r.t = "math" -> "2" [] r.t = "len" -> "2"
    [] r.t = "zz" -> "undefined"
    [] OTHER -> IF n = 0 THEN "stop" ELSE Eval(R, IF r.t \in e.byref THEN [e EXCEPT !.own = e.live] ELSE e, r.t, n - 1)
Eval(R, e, f, n) == f \o "(" \o FoldR(R, e, R[f], n) \o ")"
FoldR(R, e, rs, n) == IF rs = <<>> THEN "" ELSE RefVal(R, e, Head(rs), n) \o "," \o FoldR(R, e, Tail(rs), n)
Now(own) == Eval(refs, [own |-> own, live |-> ns, byref |-> ByRefFuns], "root", 2)
Orig == Eval(refs, [own |-> ns, live |-> ns, byref |-> {}], "root", 2)

Zero == [d \in Data |-> 0]
Init == /\ refs = [f \in Funs |-> <<>>] /\ place \in Places /\ opt \in Opts
        /\ ns = Zero /\ snap = Zero /\ phase = "def" /\ obs = <<>> /\ rb = <<>>
OrderF == [root |-> 1, g |-> 2, h |-> 3]
MaxF == LET S == { OrderF[f] : f \in { x \in Funs : refs[x] # <<>> } } IN IF S = {} THEN 1 ELSE CHOOSE m \in S : \A y \in S : y <= m
AddRef == /\ phase = "def" /\ NRefs < MaxRefs
          /\ \E f \in Funs, t \in Targets, v \in Vias :
               /\ OrderF[f] >= MaxF
               /\ (f # "root" => f \in Clo(refs, {"root"}))
               /\ (v = "closure" => f = "root")
               /\ (v \in {"shadow", "kwname", "attr", "string", "store"} => t \in Data)
               /\ (v = "clsbody" => t # "zz") /\ (v = "default" => t # "zz")
               /\ (v = "kwdef" => t \in Funs) /\ (t = "root" => v = "kwdef")
               /\ refs' = [refs EXCEPT ![f] = Append(@, [t |-> t, v |-> v])]
          /\ UNCHANGED <<place, opt, ns, snap, phase, obs, rb>>
Rebind(d, when) == /\ ns' = [ns EXCEPT ![d] = @ + 1] /\ rb' = Append(rb, <<when, d>>)
\* three optional rebindings: before dump, between dump and load, after load
Dump == /\ phase = "def" /\ NRefs >= 1
        /\ \/ ns' = ns /\ rb' = rb
           \/ \E d \in Data : Rebind(d, "before")
        /\ snap' = ns' /\ phase' = "dumped"
        /\ UNCHANGED <<refs, place, opt, obs>>
Load == /\ phase = "dumped"
        /\ \/ ns' = ns /\ rb' = rb
           \/ \E d \in Data : Rebind(d, "between")
        /\ phase' = "loaded"
        /\ UNCHANGED <<refs, place, opt, snap, obs>>
Look == /\ phase \in {"loaded", "moved"}
        /\ Len(obs) = (IF phase = "loaded" THEN 0 ELSE 1)
        /\ obs' = Append(obs, <<Now(IF Live THEN ns ELSE snap), Orig>>)
        /\ phase' = IF phase = "loaded" THEN "loaded" ELSE "done"
        /\ UNCHANGED <<refs, place, opt, ns, snap, rb>>
Move == /\ phase = "loaded" /\ Len(obs) = 1
        /\ \E d \in Data : Rebind(d, "after")
        /\ phase' = "moved" /\ UNCHANGED <<refs, place, opt, snap, obs>>
Next == AddRef \/ Dump \/ Load \/ Look \/ Move
Spec == Init /\ [][Next]_vars

\* a private copy never changes; a live one always equals the original
PrivateStable == (phase = "done" /\ ~Live /\ ByRefFuns = {}) => obs[1][1] = obs[2][1]
LiveFollows == (phase = "done" /\ Live) => \A i \in 1..2 : obs[i][1] = obs[i][2]
Emit == phase = "done" => EmitRec([refs |-> refs, place |-> place, opt |-> opt, rb |-> rb, obs |-> obs, live |-> Live,
                                   must |-> IF opt.recurse THEN ReachNames(refs) ELSE IF Live THEN {} ELSE Named,
                                   may |-> IF opt.recurse THEN MayNames(refs) ELSE Named])
=============================================================================
