---------------------------- MODULE MainClass ----------------------------
(* C06.  Classes of the main module are defined, redefined, deleted, bound *)
(* to other names; objects are pickled at some moment and loaded at later  *)
(* ones, with the class of the loaded top-level object attached to what    *)
(* the main module has under that name - or not.                           *)
EXTENDS VT, Naturals, Sequences, FiniteSets
CONSTANTS MaxPre, MaxPost, MaxLoads, Layouts, Shapes
Names == {"K", "J"}
VARIABLES cls,    \* versions of classes: name, layout, mod
          main,   \* name -> 0 unbound, v class version, 100 something that is not a class
          sett,   \* the current default of 'ignore'
          pic,    \* what was pickled: shape, class version, byref; or <<>>
          hist, n, loads
vars == <<cls, main, sett, pic, hist, n, loads>>
Init == cls = <<>> /\ main = [x \in Names |-> 0] /\ sett = FALSE /\ pic = <<>> /\ hist = <<>> /\ n = 0 /\ loads = 0
H(a) == hist' = Append(hist, a)
Dumped == pic # <<>>
Room == n < (IF Dumped THEN MaxPre + MaxPost ELSE MaxPre)
Define == /\ Room /\ n' = n + 1 /\ Len(cls) < 3
          /\ \E x \in Names, l \in Layouts, w \in {"main", "other"} :
               /\ (w = "other" => l = "plain" /\ ~Dumped)
               /\ cls' = Append(cls, [name |-> x, layout |-> l, mod |-> w])
               /\ main' = IF w = "main" THEN [main EXCEPT ![x] = Len(cls) + 1] ELSE main
               /\ H(<<"define", x, l, w>>)
          /\ UNCHANGED <<sett, pic, loads>>
Rebind == /\ Room /\ n' = n + 1
          /\ \E x \in Names, b \in {0, 100} \cup {v \in DOMAIN cls : cls[v].mod = "main"} :
               b # main[x] /\ main' = [main EXCEPT ![x] = b] /\ H(<<"bind", x, b>>)
          /\ UNCHANGED <<cls, sett, pic, loads>>
Setting == /\ Room /\ n' = n + 1 /\ sett' = ~sett /\ H(<<"setting", ~sett>>) /\ UNCHANGED <<cls, main, pic, loads>>
Found(v) == cls[v].mod = "main" /\ main[cls[v].name] = v
Dump == /\ ~Dumped /\ n' = MaxPre
        /\ \E v \in DOMAIN cls, s \in Shapes, r \in BOOLEAN :
             /\ (r => Found(v) /\ cls[v].layout # "meta") /\ (s \in {"attr", "slotattr"} => cls[v].layout \in {"plain", "frozen"})
             /\ pic' = [shape |-> s, v |-> v, byref |-> r, name |-> cls[v].name]
             /\ H(<<"dump", s, v, r>>)
        /\ UNCHANGED <<cls, main, sett, loads>>
\* a class object can only be put in place of another with the same layout in memory
Group(l) == IF l \in {"plain", "frozen", "sub"} THEN "plain" ELSE l
Compatible(v, w) == Group(cls[v].layout) = Group(cls[w].layout) /\ (cls[v].layout = "meta" <=> cls[w].layout = "meta")
Top(s) == s \in {"inst", "attr", "pair"}
Load == /\ Dumped /\ loads < MaxLoads /\ loads' = loads + 1
        /\ \E ig \in {"arg_true", "arg_false", "default"}, how \in {"loads", "load", "unpickler"} :
             LET v == pic.v
                 b == main[pic.name]
                 ignore == IF ig = "arg_true" THEN TRUE ELSE IF ig = "arg_false" THEN FALSE ELSE sett
                 \* stored by name: the class is the one of that name now; by value: a new class
                 base == IF pic.byref THEN b ELSE 0
                 fails == pic.byref /\ (b \in {0, 100})
                 may == pic.byref /\ IF b = 100 THEN pic.shape = "class" ELSE b # 0 /\ cls[b].layout # cls[v].layout
                 att == /\ Top(pic.shape) /\ ~ignore /\ cls[v].mod = "main" /\ b \notin {0, 100}
                        /\ ~pic.byref /\ Compatible(v, b)
                        /\ cls[v].layout # "frozen"     \* its instances refuse the assignment
             IN H(<<"load", ig, how, IF may THEN "any" ELSE IF fails THEN "error" ELSE IF att THEN "live" ELSE IF pic.byref THEN "live" ELSE "copy", b>>)
        /\ UNCHANGED <<cls, main, sett, pic, n>>
Next == Define \/ Rebind \/ Setting \/ Dump \/ Load
Spec == Init /\ [][Next]_vars
\* never attached against the caller's wish, nor to anything but the class bound to the name
Honest == \A i \in DOMAIN hist : hist[i][1] = "load" /\ hist[i][4] = "live" => hist[i][5] \notin {0, 100}
Emit == (loads = MaxLoads) => EmitRec([hist |-> hist])
==========================================================================
