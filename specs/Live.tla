------------------------------- MODULE Live -------------------------------
(* C16.  Objects with internal state as state machines: every kind answers  *)
(* its operations as a function of its state.  A few objects, referring to  *)
(* each other, are used, pickled in one piece, used again, loaded (twice),  *)
(* and then originals and copies are used side by side: the copies start in *)
(* the state the originals had at pickling time and all go their own way.   *)
EXTENDS VT, Integers, Sequences, FiniteSets, Randomization
CONSTANTS Kinds, MaxCells, Ops1, Ops2, Ops3, MaxLoads, Random, Hide
VARIABLES phase, w, born, snap, roots, hist, step
vars == <<phase, w, born, snap, roots, hist, step>>
\* a cell: kind, three numbers, a sequence, a reference to another cell
Cell(k, n, m, s, r) == [k |-> k, n |-> n, m |-> m, p |-> 0, s |-> s, r |-> r]
B(b) == IF b THEN "True" ELSE "False"
S(n) == ToString(n)
Pick(X) == IF Random THEN {RandomElement(IF Len(hist) >= 0 THEN X ELSE {})} ELSE X
Locks == {"lock", "rlock"}
Holders == {"cond", "meth"}
Seqs == {"seqit", "liter", "riter"}
\* the kinds another cell can refer to
RefTo(k) == CASE k = "cond" -> Locks [] k = "meth" -> Locks \cup {"sem"} [] k \in {"liter", "riter"} -> {"list"} [] k = "weak" -> {"V"} [] k = "box" -> {"V"} [] k = "wset" -> {"V"} [] OTHER -> {}
\* the states a new cell of a kind can be in (k is built from parameters only)
New(k, rs) == CASE k = "lock" -> {Cell(k, 0, 0, <<>>, 0)}
  [] k = "rlock" -> {Cell(k, 0, 0, <<>>, 0)}
  [] k = "event" -> {Cell(k, 0, 0, <<>>, 0)}
  [] k = "sem" -> {Cell(k, n, m, <<>>, 0) : n \in 1..2, m \in 0..1}     \* m: bounded
  [] k \in {"cond", "meth", "liter", "riter", "box"} -> {Cell(k, 0, 0, <<>>, r) : r \in rs}
  [] k = "barrier" -> {Cell(k, 0, m, <<>>, 0) : m \in 1..2}
  [] k \in {"fifo", "lifo", "prio"} -> {Cell(k, 0, m, <<>>, 0) : m \in {0, 2}}
  [] k \in {"sio", "bio"} -> {Cell(k, 0, 0, s, 0) : s \in {<<>>, <<1, 2, 3>>}}
  [] k = "deque" -> {Cell(k, 0, m, <<>>, 0) : m \in {0, 1, 3}}          \* m: limit plus one
  [] k = "list" -> {Cell(k, 0, 0, <<1, 2>>, 0)}
  [] k = "seqit" -> {Cell(k, 0, m, <<1, 2, 3>>, 0) : m \in 0..19}
  [] k = "weak" -> {Cell(k, 0, m, <<>>, r) : m \in 0..1, r \in rs}      \* m: reference or proxy
  [] k = "wset" -> {Cell(k, 0, 0, <<>>, r) : r \in rs}
  [] k = "V" -> {Cell(k, 0, m, <<>>, 0) : m \in 0..9}                   \* p: 1 when gone
  [] k = "lru" -> {Cell(k, 0, m, <<>>, 0) : m \in {0, 1, 2, 9, 12, 13, 14}}     \* 9: no limit; 12: two, typed; 13: the default limit; 14: and typed
  [] k = "ctx" -> {Cell(k, 0, 0, <<>>, 0)}
  [] k = "rand" -> {Cell(k, 0, m, <<>>, 0) : m \in 1..2}
  [] k = "thread" -> {Cell(k, 0, m, <<>>, 0) : m \in 0..1}              \* m: thread or timer
  [] k = "gen" -> {Cell(k, 0, 0, <<>>, 0)}
Ops(k) == CASE k = "lock" -> {"acq", "rel", "locked", "acq2", "rel2"}
  [] k = "rlock" -> {"acq", "rel", "acq2", "rel2"}
  [] k = "event" -> {"set", "clr", "isset", "wait"}
  [] k = "sem" -> {"acq", "rel"}
  [] k = "cond" -> {"acq", "rel", "notify", "wait"}
  [] k = "meth" -> {"acq"}
  [] k = "barrier" -> {"wait", "abort", "reset", "broken"}
  [] k \in {"fifo", "lifo", "prio"} -> {"put", "get", "size", "done"}
  [] k \in {"sio", "bio"} -> {"write", "read", "tell", "val", "seek", "trunc", "close"}
  [] k = "deque" -> {"app", "appl", "pop", "popl", "all"}
  [] k = "list" -> {"app", "pop", "all"}
  [] k \in Seqs -> {"next"}
  [] k = "weak" -> {"get", "callable"}
  [] k = "wset" -> {"all"}
  [] k = "box" -> {"get"}
  [] k = "V" -> {"val", "set", "drop"}
  [] k = "lru" -> {"call", "info", "clear"}
  [] k = "ctx" -> {"len", "set"}
  [] k = "rand" -> {"draw"}
  [] k = "thread" -> {"start", "alive"}
  [] k = "gen" -> {"next"}
Arg(o) == CASE o \in {"put", "app", "appl", "write", "set", "call"} -> 1..4 [] o \in {"seek", "read", "trunc"} -> 0..5 [] OTHER -> {0}
\* --- operations: <<cell', answer>> -----------------------------------------
Owner(o) == IF o \in {"acq2", "rel2"} THEN 2 ELSE 1
LockOp(c, o) ==
  IF c.k = "sem" THEN (CASE o = "acq" -> IF c.n > 0 THEN <<[c EXCEPT !.n = @ - 1], "True">> ELSE <<c, "False">>
                        [] o = "rel" -> IF c.m = 1 /\ c.n >= c.p THEN <<c, "ValueError">> ELSE <<[c EXCEPT !.n = @ + 1], "None">>)
  ELSE IF c.k = "lock" THEN (CASE o \in {"acq", "acq2"} -> IF c.n = 0 THEN <<[c EXCEPT !.n = 1], "True">> ELSE <<c, "False">>
                        [] o \in {"rel", "rel2"} -> IF c.n = 1 THEN <<[c EXCEPT !.n = 0], "None">> ELSE <<c, "RuntimeError">>
                        [] o = "locked" -> <<c, B(c.n = 1)>>)
  ELSE LET me == Owner(o) IN
       IF o \in {"acq", "acq2"} THEN IF c.n = 0 \/ c.m = me THEN <<[c EXCEPT !.n = @ + 1, !.m = me], "True">> ELSE <<c, "False">>
       ELSE IF c.n > 0 /\ c.m = me THEN <<[c EXCEPT !.n = @ - 1, !.m = IF c.n = 1 THEN 0 ELSE me], "None">> ELSE <<c, "RuntimeError">>
Mine(c) == c.n > 0 /\ (c.k = "lock" \/ c.m = 1)
RECURSIVE Pad(_, _)
Pad(s, n) == IF Len(s) >= n THEN s ELSE Pad(Append(s, 0), n)
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
RECURSIVE Show(_)
Show(s) == IF s = <<>> THEN "" ELSE S(Head(s)) \o Show(Tail(s))
IoOp(c, o, x) ==
  IF c.m = 1 THEN IF o = "close" THEN <<c, "None">> ELSE <<c, "ValueError">>
  ELSE CASE o = "close" -> <<[c EXCEPT !.m = 1], "None">>
    [] o = "tell" -> <<c, S(c.n)>>
    [] o = "val" -> <<c, Show(c.s)>>
    [] o = "seek" -> <<[c EXCEPT !.n = x], S(x)>>
    [] o = "read" -> LET e == Max(c.n, Min(Len(c.s), c.n + x)) IN <<[c EXCEPT !.n = e], IF c.n >= Len(c.s) THEN "" ELSE Show(SubSeq(c.s, c.n + 1, e))>>
    [] o = "trunc" -> <<[c EXCEPT !.s = SubSeq(@, 1, Min(x, Len(@)))], S(x)>>
    [] o = "write" -> LET t == Pad(c.s, c.n) IN <<[c EXCEPT !.s = IF c.n < Len(t) THEN [t EXCEPT ![c.n + 1] = x] ELSE Append(t, x), !.n = @ + 1], "1">>
Front(s) == SubSeq(s, 1, Len(s) - 1)
Last(s) == s[Len(s)]
RECURSIVE Insert(_, _)
Insert(s, x) == IF s = <<>> THEN <<x>> ELSE IF x <= s[1] THEN <<x>> \o s ELSE <<s[1]>> \o Insert(Tail(s), x)
QOp(c, o, x) == CASE o = "put" -> IF c.m > 0 /\ Len(c.s) >= c.m THEN <<c, "Full">>
                                  ELSE <<[c EXCEPT !.s = CASE c.k = "fifo" -> Append(@, x) [] c.k = "lifo" -> <<x>> \o @ [] OTHER -> Insert(@, x), !.n = @ + 1], "None">>
  [] o = "get" -> IF c.s = <<>> THEN <<c, "Empty">> ELSE <<[c EXCEPT !.s = Tail(@)], S(c.s[1])>>
  [] o = "size" -> <<c, S(Len(c.s))>>
  [] o = "done" -> IF c.n = 0 THEN <<c, "ValueError">> ELSE <<[c EXCEPT !.n = @ - 1], "None">>
DOp(c, o, x) == CASE o = "app" -> LET t == Append(c.s, x) IN <<[c EXCEPT !.s = IF c.m > 0 /\ Len(t) > c.m - 1 THEN Tail(t) ELSE t], "None">>
  [] o = "appl" -> LET t == <<x>> \o c.s IN <<[c EXCEPT !.s = IF c.m > 0 /\ Len(t) > c.m - 1 THEN Front(t) ELSE t], "None">>
  [] o = "pop" -> IF c.s = <<>> THEN <<c, "IndexError">> ELSE <<[c EXCEPT !.s = Front(@)], S(Last(c.s))>>
  [] o = "popl" -> IF c.s = <<>> THEN <<c, "IndexError">> ELSE <<[c EXCEPT !.s = Tail(@)], S(c.s[1])>>
  [] o = "all" -> <<c, Show(c.s)>>
\* the cache: s holds the keys, least recently used first; 4 stands for 1.0, the same key as 1 unless typed
Key(c, x) == IF x = 4 /\ c.m \notin {12, 14} THEN 1 ELSE x
Limit(c) == IF c.m = 12 THEN 2 ELSE c.m
LruOp(c, o, x) == CASE o = "clear" -> <<[c EXCEPT !.s = <<>>, !.n = 0, !.p = 0], "None">>
  [] o = "info" -> <<c, S(c.n) \o "/" \o S(c.p) \o "/" \o S(Len(c.s))>>
  [] o = "call" -> LET y == Key(c, x) hit == \E i \in DOMAIN c.s : c.s[i] = y
                       rest == SelectSeq(c.s, LAMBDA z : z # y)
                       t == Append(rest, y) IN
                   IF hit THEN <<[c EXCEPT !.n = @ + 1, !.s = t], "ok">>
                   ELSE <<[c EXCEPT !.p = @ + 1, !.s = IF c.m = 0 THEN <<>> ELSE IF c.m \notin {9, 13, 14} /\ Len(t) > Limit(c) THEN Tail(t) ELSE t], "ok">>
\* one operation on cell i of a world: <<world', answer>>
Do(cs, i, o, x) == LET c == cs[i] one(r) == <<[cs EXCEPT ![i] = r[1]], r[2]>> IN
  CASE c.k \in Locks \cup {"sem"} -> one(LockOp(c, o))
    [] c.k = "event" -> IF o \in {"isset", "wait"} THEN <<cs, B(c.n = 1)>> ELSE one(<<[c EXCEPT !.n = IF o = "set" THEN 1 ELSE 0], "None">>)
    [] c.k \in Holders -> IF o \in {"acq", "rel"} THEN LET r == LockOp(cs[c.r], o) IN <<[cs EXCEPT ![c.r] = r[1]], r[2]>>
                          ELSE IF ~Mine(cs[c.r]) THEN <<cs, "RuntimeError">> ELSE <<cs, IF o = "notify" THEN "None" ELSE "False">>
    [] c.k = "barrier" -> (CASE o = "broken" -> <<cs, B(c.n = 1)>>
                            [] o = "abort" -> one(<<[c EXCEPT !.n = 1], "None">>)
                            [] o = "reset" -> one(<<[c EXCEPT !.n = 0], "None">>)
                            [] o = "wait" -> IF c.n = 1 THEN <<cs, "BrokenBarrierError">> ELSE IF c.m = 1 THEN <<cs, "0">> ELSE one(<<[c EXCEPT !.n = 1], "BrokenBarrierError">>))
    [] c.k \in {"fifo", "lifo", "prio"} -> one(QOp(c, o, x))
    [] c.k \in {"sio", "bio"} -> one(IoOp(c, o, x))
    [] c.k \in {"deque", "list"} -> one(DOp(c, o, x))
    [] c.k = "seqit" -> IF c.m = 19 THEN one(<<[c EXCEPT !.n = @ + 1], S(c.n)>>)                          \* counts for ever
                        ELSE IF c.m = 18 THEN one(<<[c EXCEPT !.s = Append(Tail(@), @[1])], S(c.s[1])>>)   \* a cycle
                        ELSE IF c.s = <<>> THEN <<cs, "StopIteration">> ELSE one(<<[c EXCEPT !.s = Tail(@)], S(c.s[1])>>)
    [] c.k = "liter" -> LET l == cs[c.r].s IN IF c.m = 1 \/ c.n >= Len(l) THEN one(<<[c EXCEPT !.m = 1], "StopIteration">>) ELSE one(<<[c EXCEPT !.n = @ + 1], S(l[c.n + 1])>>)
    [] c.k = "riter" -> LET l == cs[c.r].s IN IF c.m = 1 \/ c.n < 1 \/ c.n > Len(l) THEN one(<<[c EXCEPT !.m = 1], "StopIteration">>) ELSE one(<<[c EXCEPT !.n = @ - 1], S(l[c.n])>>)
    [] c.k = "V" -> IF c.p >= 2 THEN <<cs, "noname">>
                    ELSE (CASE o = "val" -> <<cs, S(c.n)>> [] o = "set" -> one(<<[c EXCEPT !.n = x], "None">>)
                         [] o = "drop" -> one(<<[c EXCEPT !.p = IF \E j \in DOMAIN cs : cs[j].k = "box" /\ cs[j].r = i THEN 2 ELSE 3], "None">>))  \* 2: no name, 3: gone
    [] c.k = "box" -> <<cs, S(cs[c.r].n)>>
    [] c.k = "weak" -> <<cs, IF o = "callable" THEN B(c.m = 0 \/ cs[c.r].m \in {3, 8, 9}) ELSE IF cs[c.r].p = 3 THEN "dead" ELSE S(cs[c.r].n)>>
    [] c.k = "wset" -> <<cs, IF cs[c.r].p = 3 THEN "" ELSE S(cs[c.r].n)>>
    [] c.k = "lru" -> one(LruOp(c, o, x))
    [] c.k = "ctx" -> IF o = "len" THEN <<cs, S(c.n)>> ELSE one(<<[c EXCEPT !.n = 1], "None">>)
    [] c.k = "rand" -> one(<<[c EXCEPT !.n = @ + 1], "draw" \o S(c.n)>>)
    [] c.k = "thread" -> IF o = "alive" THEN <<cs, "False">> ELSE IF c.n = 1 THEN <<cs, "RuntimeError">> ELSE one(<<[c EXCEPT !.n = 1], "ran">>)
    [] c.k = "gen" -> one(<<[c EXCEPT !.n = @ + 1], S(c.n)>>)
\* --- pickling -----------------------------------------------------------------
RECURSIVE Reach(_, _)
Reach(cs, R) == LET more == R \cup {cs[i].r : i \in {j \in R : cs[j].r > 0}} IN IF more = R THEN R ELSE Reach(cs, more)
RECURSIVE Strong(_, _)
Strong(cs, R) == LET more == R \cup {cs[i].r : i \in {j \in R : cs[j].r > 0 /\ cs[j].k \notin {"weak", "wset"}}} IN IF more = R THEN R ELSE Strong(cs, more)
Bad(c) == (c.k = "ctx" /\ c.n > 0) \/ (c.k \in {"sio", "bio"} /\ c.m = 1) \/ c.k = "gen"
Gone(c) == c.k = "V" /\ c.p = 3
Refused(cs, R) == \E i \in Reach(cs, R) : Bad(cs[i])
Fails(cs, R) == \E i \in Reach(cs, R) : cs[i].k = "rlock" /\ cs[i].n > 0 /\ cs[i].m = 2   \* held by another thread
None == Cell("none", 0, 0, <<>>, 0)
\* what a load makes of it
Copy(cs, R) == [i \in DOMAIN cs |->
   LET c == cs[i] IN
   IF i \notin Reach(cs, R) THEN None
   ELSE IF c.k = "V" THEN IF Gone(c) \/ i \notin Strong(cs, R) THEN [c EXCEPT !.p = 3] ELSE IF i \in R THEN [c EXCEPT !.p = 0] ELSE [c EXCEPT !.p = 2]
   ELSE IF c.k \in {"liter", "riter"} THEN [c EXCEPT !.n = Min(@, Len(cs[c.r].s))]   \* (the list may have become shorter)
   ELSE IF c.k = "lru" THEN [c EXCEPT !.s = <<>>, !.n = 0, !.p = 0]
   ELSE c]
\* --- histories ------------------------------------------------------------------
Log(e) == hist' = Append(hist, e)
Init == phase = "build" /\ w = << <<>> >> /\ snap = <<>> /\ born = <<>> /\ roots = {} /\ hist = <<>> /\ step = 0
Fix(c) == IF c.k = "sem" THEN [c EXCEPT !.p = c.n] ELSE IF c.k = "thread" THEN c ELSE c
Refs(k) == {i \in DOMAIN w[1] : w[1][i].k \in RefTo(k)}
Build == phase = "build" /\ Len(w[1]) < MaxCells /\ \E k \in Pick({x \in Kinds : New(x, Refs(x)) # {}}) :
   /\ \E c \in Pick(New(k, Refs(k))) : w' = << Append(w[1], IF c.k = "riter" THEN [c EXCEPT !.n = Len(w[1][c.r].s)] ELSE Fix(c)) >>
   /\ UNCHANGED <<phase, born, snap, roots, hist, step>>
Ready == phase = "build" /\ Len(w[1]) = MaxCells /\ phase' = "before" /\ born' = w[1] /\ UNCHANGED <<w, snap, roots, hist, step>>
\* every use of a cell there is a name for
Usable(u) == {i \in DOMAIN w[u] : w[u][i].k # "none" /\ (u = 1 \/ i \in roots) /\ ~(w[u][i].k = "V" /\ w[u][i].p >= 2)}
OpsOf(c) == IF c.k = "thread" /\ c.m = 1 THEN {"alive"} ELSE Ops(c.k)
Use(n) == step < n /\ \E u \in Pick(DOMAIN w) : Usable(u) # {} /\ \E i \in Pick(Usable(u)) : \E o \in Pick(OpsOf(w[u][i])) : \E x \in Pick(Arg(o)) :
   LET r == Do(w[u], i, o, x) IN
   w' = [w EXCEPT ![u] = r[1]] /\ Log([u |-> u, i |-> i, o |-> o, x |-> x, r |-> r[2]]) /\ step' = step + 1 /\ UNCHANGED <<phase, born, snap, roots>>
Roots(cs) == LET all == {i \in DOMAIN cs : ~(cs[i].k = "V" /\ cs[i].p >= 2)} IN IF Hide THEN {R \in SUBSET all : R # {}} ELSE {all}
Dump == phase = "before" /\ step = Ops1 /\ Roots(w[1]) # {{}} /\ \E R \in Pick(Roots(w[1])) : R # {} /\
   roots' = R /\ snap' = w[1] /\ UNCHANGED <<w, born>> /\ step' = 0
   /\ Log([u |-> 0, i |-> 0, o |-> "dump", x |-> 0, r |-> IF Refused(w[1], R) THEN "refused" ELSE "ok"])
   /\ phase' = IF Refused(w[1], R) THEN "refused" ELSE "between"
Load == phase = "between" /\ (step = Ops2 \/ Len(w) > 1) /\ Len(w) <= MaxLoads
   /\ (IF Fails(snap, roots) THEN phase' = "refused" /\ w' = w /\ Log([u |-> 0, i |-> 0, o |-> "load", x |-> 0, r |-> "refused"])
      ELSE w' = Append(w, Copy(snap, roots)) /\ phase' = (IF Len(w) = MaxLoads THEN "after" ELSE "between") /\ Log([u |-> Len(w) + 1, i |-> 0, o |-> "load", x |-> 0, r |-> "ok"]))
   /\ step' = 0 /\ UNCHANGED <<born, snap, roots>>
End == CASE phase = "after" -> step = Ops3 [] phase = "refused" -> step = Ops2 [] OTHER -> FALSE
Next == \/ Build
        \/ Ready
        \/ (phase = "before" /\ Use(Ops1))
        \/ Dump
        \/ (phase = "between" /\ Len(w) = 1 /\ Use(Ops2))
        \/ Load
        \/ (phase = "after" /\ Use(Ops3))
        \/ (phase = "refused" /\ Use(Ops2))
Spec == Init /\ [][Next]_vars
\* pickling and loading never change the originals, nor one another
Untouched == [][(phase' # phase /\ phase # "build") \/ Len(w') > Len(w) => \A u \in DOMAIN w : w'[u] = w[u]]_vars
\* an operation in one world is not noticed in the others
Apart == [][\A u, v \in DOMAIN w : u # v /\ w'[u] # w[u] => w'[v] = w[v]]_vars
\* sharing is kept: a copy of a holder refers to the copy of what it holds
Shared == \A u \in DOMAIN w : \A i \in DOMAIN w[u] : w[u][i].k # "none" /\ w[u][i].r > 0 => w[u][w[u][i].r].k # "none"
Emit == End => EmitRec([cells |-> [i \in DOMAIN born |-> <<born[i].k, born[i].n, born[i].m, born[i].s, born[i].r>>], roots |-> roots, hist |-> [j \in DOMAIN hist |-> <<hist[j].u, hist[j].i, hist[j].o, hist[j].x, hist[j].r>>]])
=============================================================================
