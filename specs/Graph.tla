------------------------------ MODULE Graph ------------------------------
(* C01.  A heap of typed nodes is built slot by slot (canonical breadth-    *)
(* first order), then serialised and rebuilt by the machine dill implements:*)
(* depth-first save with a memo, the stack of objects under construction    *)
(* with their post-processing lists, cells filled as late as possible, and  *)
(* the globals of by-value functions set after the function exists.  The    *)
(* copy is built in the order in which the stream would be executed.        *)
EXTENDS VT, Naturals, Sequences, FiniteSets, SequencesExt

CONSTANTS Kinds,      \* node kinds used
          MaxN,       \* nodes per heap
          MinEmit     \* emit only heaps with at least this many nodes

ASSUME MaxN \in Nat /\ MaxN > 0

\* roles of the slots of each kind:
\*  i list item, v dict value, e tuple element, x cell content, c closure cell, d default, k kwdefault,
\*  a attribute, g global, A class attribute, m method, b base, C class of instance, f func, s self, p partial arg,
\*  D underlying dict, w weak referent, n set element (protocol 4+), h frozenset element
Roles(k) ==
  CASE k = "V0" -> <<>>            [] k = "L1" -> <<"i">>          [] k = "L2" -> <<"i","i">>
    [] k = "D1" -> <<"v">>         [] k = "D2" -> <<"v","v">>      [] k = "T1" -> <<"e">>
    [] k = "T2" -> <<"e","e">>     [] k = "X0" -> <<>>             [] k = "X1" -> <<"x">>
    [] k = "F0" -> <<>>            [] k = "Fc" -> <<"c">>          [] k = "Fcc" -> <<"c","c">>
    [] k = "Fd" -> <<"d">>         [] k = "Fk" -> <<"k">>          [] k = "Fa" -> <<"a">>
    [] k = "Fca" -> <<"c","a">>    [] k = "Fcd" -> <<"d","c">>     [] k = "Fg" -> <<"g">>
    [] k = "Fgg" -> <<"g","g">>    [] k = "C0" -> <<>>             [] k = "Ca" -> <<"A">>
    [] k = "Cm" -> <<"m">>         [] k = "Cb" -> <<"b">>          [] k = "Cbm" -> <<"b","m">>
    [] k = "Caa" -> <<"A","A">>    [] k = "I0" -> <<"C">>          [] k = "Ia" -> <<"C","a">>
    [] k = "Iaa" -> <<"C","a","a">> [] k = "M" -> <<"f","s">>      [] k = "P0" -> <<"f">>
    [] k = "P1" -> <<"f","p">>     [] k = "PR" -> <<"f">>          [] k = "SM" -> <<"f">>
    [] k = "CM" -> <<"f">>         [] k = "MP" -> <<"D">>          [] k = "VK" -> <<"D">>
    [] k = "W" -> <<"w">>              [] k = "LC" -> <<"f">>         [] k = "PK" -> <<"f","p">>
    [] k = "OD" -> <<"v">>         [] k = "DD" -> <<"f","v">>      [] k = "S1" -> <<"n">>
    [] k = "FS" -> <<"h">>
FKinds == {"F0","Fc","Fcc","Fd","Fk","Fa","Fca","Fcd","Fg","Fgg"}
CKinds == {"C0","Ca","Cm","Cb","Cbm","Caa"}
IKinds == {"I0","Ia","Iaa"}
Allowed(r) == CASE r = "c" -> {"X0","X1"} \cap Kinds
                [] r \in {"m","f"} -> FKinds \cap Kinds
                [] r \in {"b","C"} -> CKinds \cap Kinds
                [] r = "D" -> {"D1","D2"} \cap Kinds
                [] r \in {"w","n","h"} -> (FKinds \cup CKinds \cup IKinds) \cap Kinds
                [] OTHER -> Kinds
BuildHard == {"e","h","b","C","f","s","D","w","c"}       \* needed to construct the object itself (in Python)
SaveHard  == {"e","h","b","C","f","s","D","w","A","m","d","x"}  \* constructor arguments in the stream (c: see below)

VARIABLES heap,    \* sequence of [k |-> kind, e |-> targets filled so far]
          phase,   \* "build" / "done"
          res      \* outcome of the serialiser machine
vars == <<heap, phase, res>>

--------------------------------------------------------------------------
(* graph helpers                                                            *)
Slots(h, o) == Roles(h[o].k)
Edges(h, R) == { <<o, h[o].e[j]>> : <<o, j>> \in { <<o, j>> \in (1..Len(h)) \X (1..3) : j <= Len(h[o].e) /\ Roles(h[o].k)[j] \in R } }
RECURSIVE Closure(_, _)
Closure(E, S) == LET S2 == S \cup { p[2] : p \in { q \in E : q[1] \in S } } IN IF S2 = S THEN S ELSE Closure(E, S2)
Cyclic(h, R) == LET E == Edges(h, R) IN \E o \in 1..Len(h) : o \in Closure(E, { p[2] : p \in { q \in E : q[1] = o } })
Strong == {"i","v","e","x","c","d","k","a","g","A","m","b","C","f","s","p","D","n","h"}
StrongReach(h) == Closure(Edges(h, Strong), {1})

--------------------------------------------------------------------------
(* the serialiser/loader machine.  st: memo (0 = not saved), cp the copy    *)
(* heap, pp the objects under construction in order with their deferred     *)
(* assignments, fail.                                                       *)
New(st, k, n) == [st EXCEPT !.cp = Append(@, [k |-> k, e |-> [j \in 1..n |-> 0]])]
Memo(st, o) == [st EXCEPT !.memo[o] = Len(st.cp)]
SetSlot(st, c, j, v) == [st EXCEPT !.cp[c].e[j] = v]
PPIndex(st, o) == SelectInSeq(st.pp, LAMBDA p : p.o = o)
MaxDepth == 4 * MaxN + 4

RECURSIVE Save(_, _, _, _), SaveSlots(_, _, _, _, _, _), FillSoft(_, _, _, _, _, _), RunPost(_, _, _, _)

\* save the targets of slots js in order; result [st, vals]
SaveSlots(h, st, o, js, vals, d) ==
  IF js = <<>> \/ st.fail # "" THEN [st |-> st, vals |-> vals]
  ELSE LET r == Save(h, st, h[o].e[Head(js)], d + 1)
       IN SaveSlots(h, r.st, o, Tail(js), [vals EXCEPT ![Head(js)] = r.v], d)

\* save the targets of slots js and store each into the existing copy c
FillSoft(h, st, o, c, js, d) ==
  IF js = <<>> \/ st.fail # "" THEN st
  ELSE LET r == Save(h, st, h[o].e[Head(js)], d + 1)
       IN FillSoft(h, SetSlot(r.st, c, Head(js), r.v), o, c, Tail(js), d)

SlotsOf(h, o, R) == SelectSeq([j \in 1..Len(Slots(h, o)) |-> j], LAMBDA j : Slots(h, o)[j] \in R)
NoVals(h, o) == [j \in 1..Len(Slots(h, o)) |-> 0]

\* create the object from its constructor slots (already saved), unless it appeared meanwhile
Finish(h, r, o) ==
  IF r.st.fail # "" THEN [st |-> r.st, v |-> 0]
  ELSE IF r.st.memo[o] # 0 THEN [st |-> r.st, v |-> r.st.memo[o]]
  ELSE LET s1 == [r.st EXCEPT !.cp = Append(@, [k |-> h[o].k, e |-> r.vals])]
           s2 == Memo(s1, o)
       IN [st |-> s2, v |-> Len(s2.cp)]

Fail(st, why) == [st |-> [st EXCEPT !.fail = why], v |-> 0]

\* run deferred assignments, last first
RunPost(h, st, todo, d) ==
  IF todo = <<>> \/ st.fail # "" THEN st
  ELSE LET t == todo[Len(todo)]
           rest == SubSeq(todo, 1, Len(todo) - 1)
       IN IF t.t = "cell"
          THEN LET r == Save(h, st, h[t.x].e[1], d + 1)
                   c == r.st.memo[t.x]
               IN IF r.st.fail # "" THEN r.st ELSE RunPost(h, SetSlot(r.st, c, 1, r.v), rest, d)
          ELSE RunPost(h, FillSoft(h, st, t.x, st.memo[t.x], SlotsOf(h, t.x, {"g"}), d), rest, d)

Save(h, st, o, d) ==
  LET k == h[o].k
  IN
  IF st.fail # "" THEN [st |-> st, v |-> 0]
  ELSE IF st.memo[o] # 0 THEN [st |-> st, v |-> st.memo[o]]
  ELSE IF d > MaxDepth THEN Fail(st, "recursion")
  ELSE IF k \in {"V0", "X0"} THEN LET s == Memo(New(st, k, 0), o) IN [st |-> s, v |-> Len(s.cp)]
  ELSE IF k \in {"L1","L2","D1","D2","S1"}
  THEN LET s == Memo(New(st, k, Len(Slots(h, o))), o)
           c == Len(s.cp)
       IN [st |-> FillSoft(h, s, o, c, [j \in 1..Len(Slots(h, o)) |-> j], d), v |-> c]
  ELSE IF k = "X1"
  THEN LET f == h[o].e[1]
           i == PPIndex(st, f)
           where == IF i # 0 THEN i ELSE IF st.pp # <<>> THEN 1 ELSE 0
       IN IF where # 0
          THEN LET s == Memo(New(st, k, 1), o)
               IN [st |-> [s EXCEPT !.pp[where].todo = Append(@, [t |-> "cell", x |-> o])], v |-> Len(s.cp)]
          ELSE Finish(h, SaveSlots(h, st, o, <<1>>, NoVals(h, o), d), o)
  ELSE IF k \in FKinds
  THEN IF PPIndex(st, o) # 0 THEN Fail(st, "global")
       ELSE LET gl == SlotsOf(h, o, {"g"})
                gids == { h[o].e[j] : j \in { gl[x] : x \in 1..Len(gl) } }
                onstack == SelectInSeq(st.pp, LAMBDA p : p.o \in gids)
                job == [t |-> "glob", x |-> o]
                s0 == IF gl # <<>> /\ onstack # 0 THEN [st EXCEPT !.pp[onstack].todo = Append(@, job)] ELSE st
                own == IF gl # <<>> /\ onstack = 0 THEN <<job>> ELSE <<>>
                s1 == [s0 EXCEPT !.pp = Append(@, [o |-> o, todo |-> own])]
                r == SaveSlots(h, s1, o, SlotsOf(h, o, {"d"}) \o SlotsOf(h, o, {"c"}), NoVals(h, o), d)
                mk == Finish(h, r, o)
                s2 == FillSoft(h, mk.st, o, mk.v, SlotsOf(h, o, {"a"}) \o SlotsOf(h, o, {"k"}), d)
            IN IF s2.fail # "" THEN Fail(s2, s2.fail)
               ELSE LET me == PPIndex(s2, o)
                        todo == s2.pp[me].todo
                        s3 == [s2 EXCEPT !.pp = SubSeq(@, 1, Len(@) - 1)]
                    IN [st |-> RunPost(h, s3, todo, d), v |-> mk.v]
  ELSE IF k \in CKinds
  THEN IF PPIndex(st, o) # 0 THEN Fail(st, "global")
       ELSE LET s1 == [st EXCEPT !.pp = Append(@, [o |-> o, todo |-> <<>>])]
                r == SaveSlots(h, s1, o, SlotsOf(h, o, {"b"}) \o SlotsOf(h, o, {"A","m"}), NoVals(h, o), d)
                mk == Finish(h, r, o)
            IN IF mk.st.fail # "" THEN mk
               ELSE LET todo == mk.st.pp[Len(mk.st.pp)].todo
                        s3 == [mk.st EXCEPT !.pp = SubSeq(@, 1, Len(@) - 1)]
                    IN [st |-> RunPost(h, s3, todo, d), v |-> mk.v]
  ELSE \* constructor slots first, then state (instances, partials) - tuples, methods, views, ... have only the former
       LET hard == SlotsOf(h, o, {"e","h","C","f","s","D","w"})
           soft == SlotsOf(h, o, {"a","p","v"})
           mk == Finish(h, SaveSlots(h, st, o, hard, NoVals(h, o), d), o)
       IN IF mk.st.fail # "" THEN mk
          ELSE [st |-> FillSoft(h, mk.st, o, mk.v, soft, d), v |-> mk.v]

Start(h) == [memo |-> [o \in 1..Len(h) |-> 0], cp |-> <<>>, pp |-> <<>>, fail |-> ""]
Serialise(h) == LET r == Save(h, Start(h), 1, 0)
                IN [ok |-> r.st.fail = "", fail |-> r.st.fail, root |-> r.v, cp |-> r.st.cp, left |-> Len(r.st.pp)]

--------------------------------------------------------------------------
(* isomorphism of the copy reachable from its root with the original; a     *)
(* weak referent only counts when something keeps it alive                  *)
RECURSIVE Pairs(_, _, _, _)
Pairs(h, cp, live, P) ==
  LET step == UNION { IF h[p[1]].k # cp[p[2]].k THEN {}
                      ELSE { <<h[p[1]].e[j], cp[p[2]].e[j]>> :
                             j \in { x \in 1..Len(h[p[1]].e) : cp[p[2]].e[x] # 0 /\ (h[p[1]].k = "W" => h[p[1]].e[x] \in live) } }
                      : p \in P }
      P2 == P \cup step
  IN IF P2 = P THEN P ELSE Pairs(h, cp, live, P2)
Isomorphic(h, cp, root) ==
  LET live == StrongReach(h)
      P == Pairs(h, cp, live, {<<1, root>>})
  IN /\ \A p \in P : h[p[1]].k = cp[p[2]].k /\ \A j \in 1..Len(cp[p[2]].e) : cp[p[2]].e[j] # 0
     /\ \A p, q \in P : (p[1] = q[1]) <=> (p[2] = q[2])

--------------------------------------------------------------------------
(* building heaps                                                           *)
NextSlot(h) == \* first node with an unfilled slot, 0 if complete
  SelectInSeq(h, LAMBDA n : Len(n.e) < Len(Roles(n.k)))
Pending(h) == \* number of nodes, used to bound
  Len(h)
Init == /\ \E k \in Kinds : heap = <<[k |-> k, e |-> <<>>]>>
        /\ phase = "build"
        /\ res = [ok |-> FALSE, fail |-> "", root |-> 0, cp |-> <<>>, left |-> 0]
OldTarget(o, r) == \E t \in 1..Len(heap) :
                     /\ heap[t].k \in Allowed(r)
                     /\ heap' = [heap EXCEPT ![o].e = Append(@, t)]
NewTarget(o, r) == /\ Len(heap) < MaxN
                   /\ \E k \in Allowed(r) :
                        heap' = Append([heap EXCEPT ![o].e = Append(@, Len(heap) + 1)], [k |-> k, e |-> <<>>])
Fill == LET o == NextSlot(heap)
        IN /\ phase = "build" /\ o # 0
           /\ LET r == Roles(heap[o].k)[Len(heap[o].e) + 1]
              IN OldTarget(o, r) \/ NewTarget(o, r)
           /\ UNCHANGED <<phase, res>>
Buildable(h) == ~Cyclic(h, BuildHard)
DumpLoad == /\ phase = "build" /\ NextSlot(heap) = 0 /\ Buildable(heap)
            /\ res' = Serialise(heap)
            /\ phase' = "done"
            /\ UNCHANGED heap
Next == Fill \/ DumpLoad
Spec == Init /\ [][Next]_vars

--------------------------------------------------------------------------
(* the property on the specification itself                                 *)
NeverWrong == (phase = "done" /\ res.ok) => Isomorphic(heap, res.cp, res.root)
\* no function or class is reachable from its own defaults, bases or class attributes other than through
\* closure variables or the globals of a function naming it directly, and no other object is needed for its own construction
FromHard(h, o) == { h[o].e[j] : j \in { x \in 1..Len(h[o].e) : Slots(h, o)[x] \in {"d","c","b","A","m"} } }
WellFoundedG(h, G) ==   \* G: the function -> global edges
  LET E == Edges(h, (Strong \cup {"w"}) \ {"x","g"})
  IN /\ ~Cyclic(h, SaveHard)
     /\ \A o \in 1..Len(h) : h[o].k \in FKinds \cup CKinds
                             => o \notin Closure(E \cup { p \in G : p[2] # o }, FromHard(h, o))
WellFounded(h) == WellFoundedG(h, Edges(h, {"g"}))
\* with recursion into globals a function also carries the globals of the functions in its closure
MergedG(h) == LET F == Edges(h, {"c","x","g","f"})
                  reach(o) == {o} \cup { t \in Closure(F, {o}) : h[t].k \in FKinds }
              IN UNION { {o} \X { p[2] : p \in { q \in Edges(h, {"g"}) : q[1] \in reach(o) } } : o \in { x \in 1..Len(h) : h[x].k \in FKinds } }
WellFoundedR(h) == WellFounded(h) /\ WellFoundedG(h, MergedG(h))
SoftSucceeds == (phase = "done" /\ WellFounded(heap)) => res.ok
StackEmpty == (phase = "done" /\ res.ok) => res.left = 0
Emit == (phase = "done" /\ Len(heap) >= MinEmit)
          => EmitRec([h |-> [o \in 1..Len(heap) |-> <<heap[o].k, heap[o].e>>], ok |-> res.ok, soft |-> WellFoundedR(heap)])
=========================================================================
