-------------------------------- MODULE Files --------------------------------
(* C12.  A file, a handle open on it in some mode, the handle pickled in    *)
(* one of the three file modes, the file changed or removed afterwards, the *)
(* handle loaded and used.  Content is a sequence of characters; 0 stands   *)
(* for the null bytes that fill a gap.                                      *)
EXTENDS VT, Naturals, Sequences, FiniteSets
CONSTANTS OpenModes, FModes, Strict, Starts, MaxOps, MaxChanges, MaxAfter, MaxPos
None == <<99>>
VARIABLES file, h, pick, new, phase, hist, ops, changes, after
vars == <<file, h, pick, new, phase, hist, ops, changes, after>>
\* mode: [k: r w a x, plus, bin]
Reads(m) == m.k = "r" \/ m.plus
Writes(m) == m.k # "r" \/ m.plus
\* what the mode attribute of the handle says: w+b is reported as rb+
Effective(m) == IF m.bin /\ m.k = "w" /\ m.plus THEN [m EXCEPT !.k = "r"] ELSE m
Min(a, b) == IF a < b THEN a ELSE b
Put(c, p, x) == [i \in 1..(IF p >= Len(c) THEN p + 1 ELSE Len(c)) |-> IF i = p + 1 THEN x ELSE IF i <= Len(c) THEN c[i] ELSE 0]
\* opening: [ok, file, pos]
Opened(f, m) ==
  CASE m.k = "r" -> [ok |-> f # None, file |-> f, pos |-> 0]
    [] m.k = "w" -> [ok |-> TRUE, file |-> <<>>, pos |-> 0]
    [] m.k = "a" -> [ok |-> TRUE, file |-> IF f = None THEN <<>> ELSE f, pos |-> IF f = None THEN 0 ELSE Len(f)]
    [] m.k = "x" -> [ok |-> f = None, file |-> IF f = None THEN <<>> ELSE f, pos |-> 0]
Init == /\ file \in Starts /\ h = [open |-> FALSE] /\ pick = [done |-> FALSE] /\ new = [loaded |-> FALSE] /\ phase = "open"
        /\ hist = <<[do |-> "start", file |-> file]>> /\ ops = 0 /\ changes = 0 /\ after = 0
Log(e) == hist' = Append(hist, e)
Open(m) == /\ phase = "open" /\ Opened(file, m).ok
  /\ LET o == Opened(file, m) IN file' = o.file /\ h' = [open |-> TRUE, m |-> m, pos |-> o.pos, closed |-> FALSE]
  /\ phase' = "use" /\ Log([do |-> "open", m |-> m]) /\ UNCHANGED <<pick, new, ops, changes, after>>
\* --- using a handle g on the file: results [file, pos, got]
UseRead(g, n) == [file |-> file, pos |-> IF g.pos + n <= Len(file) THEN g.pos + n ELSE IF g.pos > Len(file) THEN g.pos ELSE Len(file),
                  got |-> IF g.pos >= Len(file) THEN <<>> ELSE SubSeq(file, g.pos + 1, Min(g.pos + n, Len(file)))]
UseWrite(g, x) == LET p == IF g.m.k = "a" THEN Len(file) ELSE g.pos IN [file |-> Put(file, p, x), pos |-> p + 1, got |-> <<>>]
Step == /\ phase = "use" /\ ops < MaxOps /\ ~h.closed /\ ops' = ops + 1 /\ UNCHANGED <<pick, new, phase, changes, after>>
 /\ \/ \E n \in {1, 9} : LET u == UseRead(h, n) IN Reads(h.m) /\ h' = [h EXCEPT !.pos = u.pos] /\ file' = file /\ Log([do |-> "read", n |-> n, got |-> u.got])
    \/ \E x \in {7} : LET u == UseWrite(h, x) IN Writes(h.m) /\ Len(u.file) <= MaxPos + 2 /\ h' = [h EXCEPT !.pos = u.pos] /\ file' = u.file /\ Log([do |-> "write", x |-> x])
    \/ \E p \in 0..MaxPos : p # h.pos /\ h' = [h EXCEPT !.pos = p] /\ file' = file /\ Log([do |-> "seek", p |-> p])
    \/ h' = [h EXCEPT !.closed = TRUE, !.pos = 0] /\ file' = file /\ Log([do |-> "close"])
\* --- pickling
Pickle(fm, st) == /\ phase = "use" /\ phase' = "pickled"
  /\ pick' = [done |-> TRUE, fm |-> fm, strict |-> st, m |-> Effective(h.m), pos |-> IF h.closed THEN 0 ELSE h.pos, closed |-> h.closed, data |-> file]
  /\ Log([do |-> "pickle", fm |-> fm, strict |-> st]) /\ UNCHANGED <<file, h, new, ops, changes, after>>
\* --- the file changes afterwards
Change == /\ phase = "pickled" /\ changes < MaxChanges /\ changes' = changes + 1 /\ UNCHANGED <<h, pick, new, phase, ops, after>>
 /\ \/ file # None /\ file' = None /\ Log([do |-> "remove"])
    \/ \E c \in {<<>>, <<8>>, <<9, 9, 9, 9, 9, 9, 9, 9>>} : file' = c /\ file # c /\ Log([do |-> "rewrite", file |-> c])
    \/ file # None /\ Len(file) <= MaxPos + 2 /\ file' = Append(file, 8) /\ Log([do |-> "extend"])
    \/ file # None /\ Len(file) > 1 /\ file' = SubSeq(file, 1, 1) /\ Log([do |-> "shorten"])
\* --- loading
Gone == file = None
Loaded == LET m == pick.m  size == IF Gone THEN 0 ELSE Len(file) IN
  IF pick.strict /\ Gone THEN [res |-> "FileNotFoundError"]
  ELSE IF pick.strict /\ pick.pos > size THEN [res |-> "ValueError"]
  ELSE IF pick.fm = "file" THEN [res |-> "handle", file |-> pick.data, pos |-> pick.pos]
  ELSE IF Gone /\ m.k = "r" THEN [res |-> "temporary", file |-> None, pos |-> 0]
  ELSE IF pick.fm = "handle" THEN
     IF m.k = "x" /\ ~Gone THEN [res |-> "UnpicklingError"]
     ELSE [res |-> "handle", file |-> Opened(file, m).file, pos |-> Opened(file, m).pos]
  ELSE [res |-> "handle", file |-> IF Gone THEN <<>> ELSE file, pos |-> Min(pick.pos, size)]
Load == /\ phase = "pickled"
  /\ LET l == Loaded IN
     /\ IF l.res \in {"handle", "temporary"} THEN file' = l.file /\ new' = [loaded |-> TRUE, m |-> pick.m, pos |-> l.pos, closed |-> pick.closed, temp |-> l.res = "temporary"]
                                             ELSE UNCHANGED file /\ new' = [loaded |-> FALSE]
     /\ phase' = IF l.res = "handle" /\ ~pick.closed THEN "loaded" ELSE "end"
     /\ Log([do |-> "load", res |-> l.res, file |-> file', m |-> pick.m, pos |-> IF "pos" \in DOMAIN l THEN l.pos ELSE 0, closed |-> pick.closed])
  /\ UNCHANGED <<h, pick, ops, changes, after>>
After == /\ phase = "loaded" /\ after < MaxAfter /\ after' = after + 1 /\ UNCHANGED <<h, pick, phase, ops, changes>>
 /\ \/ LET u == UseRead(new, 9) IN Reads(new.m) /\ new' = [new EXCEPT !.pos = u.pos] /\ file' = file /\ Log([do |-> "read2", n |-> 9, got |-> u.got])
    \/ LET u == UseWrite(new, 6) IN Writes(new.m) /\ new' = [new EXCEPT !.pos = u.pos] /\ file' = u.file /\ Log([do |-> "write2", x |-> 6])
End == phase = "loaded" /\ after = MaxAfter /\ phase' = "end" /\ Log([do |-> "check", file |-> file, pos |-> new.pos]) /\ UNCHANGED <<file, h, pick, new, ops, changes, after>>
Next == (\E m \in OpenModes : Open(m)) \/ Step \/ (\E f \in FModes, s \in Strict : Pickle(f, s)) \/ Change \/ Load \/ After \/ End
Spec == Init /\ [][Next]_vars
\* the promises of the three file modes
Content == phase = "loaded" /\ after = 0 =>
  /\ pick.fm = "file" => file = pick.data /\ new.pos = pick.pos
  /\ pick.fm = "contents" => new.pos <= Len(file) /\ new.pos <= pick.pos
Emit == phase = "end" => EmitRec([hist |-> hist])
=============================================================================
