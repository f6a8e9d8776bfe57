-------------------------------- MODULE Diff --------------------------------
(* C26.  Objects refer to each other through attributes and items; each can *)
(* be recorded (with everything it contains that is not recorded yet), and  *)
(* afterwards be changed.  What is reported after every step follows from   *)
(* the difference between what was recorded and what is.                    *)
EXTENDS VT, Naturals, Sequences, FiniteSets
CONSTANTS Plan,      \* which steps may be of which sort: any, change, record
          Kind,      \* kind of each object: obj, list, dict, set, tuple, sub (list with attributes), dsub (dictionary with attributes)
          MaxOps, MaxLen, Cyclic
N == Len(Kind)
Nodes == 1..N
Leaves == {101, 102}
Names == {"a", "b"}
Keys == {201, 202}    \* beside these, objects are keys too
None == 0
HasAttr(n) == Kind[n] \in {"obj", "sub", "dsub"}
IsList(n) == Kind[n] \in {"list", "sub", "tuple"}
IsDict(n) == Kind[n] \in {"dict", "dsub"}
\* unless Cyclic, an object refers only to later ones
To(n) == {m \in Nodes : m > n \/ Cyclic} \cup Leaves
Hashable(m) == m \in Leaves \/ (m \in Nodes /\ Kind[m] \in {"obj", "sub", "dsub"})
AllKeys(n) == Keys \cup {m \in To(n) \cap Nodes : Hashable(m)}
VARIABLES attr, seq, memo, hist, ops
vars == <<attr, seq, memo, hist, ops>>
EmptySeq(n) == IF IsDict(n) THEN [k \in AllKeys(n) |-> None] ELSE IF Kind[n] = "set" THEN {} ELSE <<>>
Init == /\ attr = [n \in Nodes |-> [x \in Names |-> None]]
        /\ seq = [n \in Nodes |-> IF Kind[n] = "tuple" THEN <<IF n < N THEN n + 1 ELSE 101, 102>> ELSE EmptySeq(n)]
        /\ memo = [n \in Nodes |-> <<>>] /\ hist = <<>> /\ ops = 0
Range(s) == {s[i] : i \in DOMAIN s}
\* what an object contains: items, and what they are kept under
Items(n, q) == IF Kind[n] = "set" THEN q ELSE Range(q) \cup IF IsDict(n) THEN {k \in DOMAIN q : q[k] # None} ELSE {}
Kids(n) == (({attr[n][x] : x \in Names} \cup Items(n, seq[n])) \ {None}) \cap Nodes
RECURSIVE Fresh(_, _)
\* the objects recorded when recording starts at those of s: what is recorded already is not entered
Fresh(s, done) == IF s = {} THEN done ELSE LET n == CHOOSE x \in s : TRUE IN
   IF n \in done \/ memo[n] # <<>> THEN Fresh(s \ {n}, done) ELSE Fresh((s \ {n}) \cup Kids(n), done \cup {n})
Shot(n) == <<[attr |-> attr[n], seq |-> seq[n]]>>
\* --- what must be reported
\* What is different in the object itself; what it holds now.
SeqDirect(n, sq, me) == me[n][1].seq # sq[n]
AttrDirect(n, at, me) == {x \in Names : at[n][x] # me[n][1].attr[x]}
Holds(n, at, sq) == (({at[n][x] : x \in Names} \cup Items(n, sq[n])) \ {None}) \cap Nodes
RECURSIVE Reach(_, _, _)
Reach(X, at, sq) == LET Y == X \cup UNION {Holds(n, at, sq) : n \in X} IN IF Y = X THEN X ELSE Reach(Y, at, sq)
\* something in it is different (or was never recorded)
Deep(n, at, sq, me) == \E m \in Reach({n}, at, sq) : me[m] = <<>> \/ SeqDirect(m, sq, me) \/ AttrDirect(m, at, me) # {}
\* An object on a cycle is not asked twice, so which of the parts that lead around the cycle are named
\* is left open (must .. may); that something is different is not.
OnCycle(n, at, sq) == \E m \in Holds(n, at, sq) : n \in Reach({m}, at, sq)
Solo(n, m, at, sq) == \A q \in Reach({m}, at, sq) : ~OnCycle(q, at, sq)
SeqMay(n, at, sq, me) == SeqDirect(n, sq, me) \/ \E m \in (Items(n, sq[n]) \cap Nodes) : Deep(m, at, sq, me)
SeqMust(n, at, sq, me) == SeqDirect(n, sq, me) \/ \E m \in (Items(n, sq[n]) \cap Nodes) : (Deep(m, at, sq, me) /\ Solo(n, m, at, sq))
AttrMay(n, at, sq, me) == {x \in Names : x \in AttrDirect(n, at, me) \/ (at[n][x] \in Nodes /\ Deep(at[n][x], at, sq, me))}
AttrMust(n, at, sq, me) == {x \in AttrMay(n, at, sq, me) : x \in AttrDirect(n, at, me) \/ Solo(n, at[n][x], at, sq)}
Report(n, at, sq, me) == IF me[n] = <<>> THEN [known |-> FALSE, attrs |-> {}, may |-> {}, seq |-> FALSE, seqmay |-> FALSE, any |-> TRUE]
   ELSE [known |-> TRUE, attrs |-> {<<x, at[n][x]>> : x \in AttrMust(n, at, sq, me)}, may |-> {<<x, at[n][x]>> : x \in AttrMay(n, at, sq, me)},
         seq |-> SeqMust(n, at, sq, me), seqmay |-> SeqMay(n, at, sq, me), any |-> Deep(n, at, sq, me)]
Done(op, at, sq, me) ==
  /\ attr' = at /\ seq' = sq /\ memo' = me /\ ops' = ops + 1
  /\ hist' = Append(hist, [op |-> op, report |-> [n \in Nodes |-> Report(n, at, sq, me)]])
Record(n) == Done([do |-> "record", n |-> n], attr, seq, [m \in Nodes |-> IF m \in Fresh({n}, {}) THEN Shot(m) ELSE memo[m]])
Force(n) == LET new == IF memo[n] = <<>> THEN Fresh({n}, {}) ELSE {n} \cup Fresh(Kids(n), {}) IN
   Done([do |-> "force", n |-> n], attr, seq, [m \in Nodes |-> IF m \in new THEN Shot(m) ELSE memo[m]])
SetAttr(n, x, v) == /\ HasAttr(n) /\ attr[n][x] # v
   /\ Done([do |-> "attr", n |-> n, x |-> x, v |-> v], [attr EXCEPT ![n][x] = v], seq, memo)
PutKey(n, k, v) == /\ IsDict(n) /\ seq[n][k] # v
   /\ Done([do |-> "key", n |-> n, k |-> k, v |-> v], attr, [seq EXCEPT ![n][k] = v], memo)
AppendItem(n, v) == /\ Kind[n] \in {"list", "sub"} /\ Len(seq[n]) < MaxLen
   /\ Done([do |-> "append", n |-> n, v |-> v], attr, [seq EXCEPT ![n] = Append(@, v)], memo)
SetItem(n, i, v) == /\ Kind[n] \in {"list", "sub"} /\ i \in DOMAIN seq[n] /\ seq[n][i] # v
   /\ Done([do |-> "item", n |-> n, i |-> i, v |-> v], attr, [seq EXCEPT ![n][i] = v], memo)
Pop(n) == /\ Kind[n] \in {"list", "sub"} /\ seq[n] # <<>>
   /\ Done([do |-> "pop", n |-> n], attr, [seq EXCEPT ![n] = Tail(@)], memo)
Toggle(n, v) == /\ Kind[n] = "set" /\ Hashable(v)
   /\ Done([do |-> IF v \in seq[n] THEN "remove" ELSE "add", n |-> n, v |-> v], attr, [seq EXCEPT ![n] = IF v \in @ THEN @ \ {v} ELSE @ \cup {v}], memo)
Sort == IF ops < Len(Plan) THEN Plan[ops + 1] ELSE "any"
Next == /\ ops < MaxOps
        /\ \/ Sort # "change" /\ \E n \in Nodes : Record(n) \/ Force(n)
           \/ Sort # "record" /\ \E n \in Nodes :
              \/ Pop(n)
              \/ (\E v \in To(n) \cup {None}, x \in Names : SetAttr(n, x, v))
              \/ (\E v \in To(n) \cup {None}, k \in IF IsDict(n) THEN AllKeys(n) ELSE {} : PutKey(n, k, v))
              \/ (\E v \in To(n) : AppendItem(n, v) \/ Toggle(n, v) \/ (\E i \in 1..MaxLen : SetItem(n, i, v)))
Spec == Init /\ [][Next]_vars
Last == hist[Len(hist)]
\* right after recording, or forcing an object all of whose parts are unchanged, nothing is reported
QuietAfterRecord == hist # <<>> /\ Last.op.do = "record" => LET n == Last.op.n IN
   (memo[n] = Shot(n) /\ \A m \in Nodes : memo[m] # <<>> => memo[m] = Shot(m)) => ~Last.report[n].seq /\ Last.report[n].attrs = {}
\* a report of a change has a cause: some object it contains was changed since it was recorded
Cause == hist # <<>> => \A n \in Nodes : Last.report[n].known /\ (Last.report[n].seq \/ Last.report[n].attrs # {}) => \E m \in Reach({n}, attr, seq) : memo[m] # Shot(m)
\* without cycles the report is exact
Exact == hist # <<>> => \A n \in Nodes : LET r == Last.report[n] IN (~Cyclic => r.attrs = r.may /\ r.seq = r.seqmay) /\ (r.known => (r.any <=> r.may # {} \/ r.seqmay))
Emit == ops = MaxOps => EmitRec([kind |-> Kind, hist |-> hist])
=============================================================================
