------------------------------- MODULE Temp -------------------------------
(* C22.  Handles of stored objects (in files and in buffers, as pickles and  *)
(* as source), the files that live with them, and captures of the standard   *)
(* streams, nested, left normally or by an exception.                        *)
EXTENDS VT, Integers, Sequences, FiniteSets, Randomization
CONSTANTS Values, Named, Bad, MaxHandles, MaxCaptures, MaxSteps, Doing, Random
\* Named: values with a source; Bad: values that cannot be stored
VARIABLES hs, files, caps, outs, hist
vars == <<hs, files, caps, outs, hist>>
Pick(X) == IF Random THEN {RandomElement(IF Len(hist) >= 0 THEN X ELSE {})} ELSE X
\* a handle: how it was made, of what, its file (0 for a buffer), whether the file goes with it
Init == hs = <<>> /\ files = {} /\ caps = <<>> /\ outs = [o |-> <<>>, e |-> <<>>] /\ hist = <<>>
Log(a) == hist' = Append(hist, a)
Step(n) == [op |-> n, h |-> 0, kind |-> "", v |-> "", opt |-> "", how |-> "", stream |-> "", n |-> 0, text |-> "", expect |-> "", files |-> {}]
More == Len(hist) < MaxSteps
Dead == [kind |-> "dead", v |-> "", file |-> 0, keep |-> FALSE]
Kinds == {"dump", "dumpIO", "source", "sourceIO"}
IsFile(k) == k \in {"dump", "source"}
FileOpts == {"plain", "prefix", "suffix", "keep"}
\* --- storing and loading ----------------------------------------------------------
Dump == /\ More /\ Len(hs) < MaxHandles
        /\ \E k \in Pick(Kinds) : \E v \in Pick(IF k \in {"source", "sourceIO"} THEN Named ELSE Values) : \E o \in Pick(IF IsFile(k) THEN FileOpts ELSE {"plain"}) : \E al \in Pick(IF k \in {"source", "sourceIO"} THEN {"", "alias"} ELSE {""}) :
           LET f == IF IsFile(k) THEN Len(hs) + 1 ELSE 0 IN
           /\ hs' = Append(hs, [kind |-> k, v |-> v, file |-> f, keep |-> o = "keep"])
           /\ files' = files \cup (IF f = 0 THEN {} ELSE {f})
           /\ Log([Step("dump") EXCEPT !.h = Len(hs) + 1, !.kind = k, !.v = v, !.opt = o, !.text = al, !.files = files'])
        /\ UNCHANGED <<caps, outs>>
\* storing what cannot be stored leaves nothing behind
DumpBad == /\ More /\ Bad # {}
           /\ \E k \in Pick({"dump", "dumpIO"}) : \E v \in Pick(Bad) : Log([Step("dumpbad") EXCEPT !.kind = k, !.v = v, !.files = files])
           /\ UNCHANGED <<hs, files, caps, outs>>
Live == {i \in DOMAIN hs : hs[i].kind # "dead" \/ (hs[i].file # 0 /\ hs[i].file \in files)}
\* by the handle, by the file's name, by the contents; as many times as wanted
Ways(i) == IF hs[i].kind = "dead" THEN {"name"} ELSE IF IsFile(hs[i].kind) THEN {"handle", "name", "mode", "path"} ELSE {"handle", "value"}
Load == /\ More /\ Live # {}
        /\ \E i \in Pick(Live) : \E w \in Pick(Ways(i)) : Log([Step("load") EXCEPT !.h = i, !.how = w, !.expect = hs[i].v, !.files = files])
        /\ UNCHANGED <<hs, files, caps, outs>>
\* the value loaded is changed: later loads are not
Change == /\ More /\ Live # {} /\ \E i \in Pick(Live) : Log([Step("change") EXCEPT !.h = i, !.how = IF hs[i].kind = "dead" THEN "name" ELSE "handle", !.files = files])
          /\ UNCHANGED <<hs, files, caps, outs>>
Held == {i \in DOMAIN hs : hs[i].kind # "dead"}
Drop == /\ More /\ Held # {}
        /\ \E i \in Pick(Held) : \E w \in Pick({"drop", "close", "with", "raise"}) :
           /\ hs' = [hs EXCEPT ![i] = [@ EXCEPT !.kind = "dead"]]
           /\ files' = IF hs[i].keep THEN files ELSE files \ {hs[i].file}
           /\ Log([Step("drop") EXCEPT !.h = i, !.how = w, !.files = files'])
        /\ UNCHANGED <<caps, outs>>
\* --- capturing ---------------------------------------------------------------------
Streams == {"stdout", "stderr"}
Last(s, c) == IF \E i \in 1..Len(c) : c[i].stream = s THEN CHOOSE i \in 1..Len(c) : c[i].stream = s /\ \A j \in (i + 1)..Len(c) : c[j].stream # s ELSE 0
Enter == /\ More /\ Len(caps) < MaxCaptures
         /\ \E s \in Pick(Streams) : caps' = Append(caps, [stream |-> s, text |-> <<>>]) /\ Log([Step("enter") EXCEPT !.stream = s, !.n = Len(caps) + 1, !.files = files])
         /\ UNCHANGED <<hs, files, outs>>
\* what is written goes to the innermost capture of that stream
Write == /\ More
         /\ \E s \in Pick(Streams) : \E w \in Pick({"print", "write", "handle"}) :
            LET c == Last(s, caps)
                t == "t" \o ToString(Len(hist)) IN
            /\ caps' = IF c = 0 THEN caps ELSE [caps EXCEPT ![c].text = Append(@, t)]
            /\ outs' = IF c # 0 THEN outs ELSE IF s = "stdout" THEN [outs EXCEPT !.o = Append(@, t)] ELSE [outs EXCEPT !.e = Append(@, t)]
            /\ Log([Step("write") EXCEPT !.stream = s, !.how = w, !.text = t, !.n = c, !.files = files])
         /\ UNCHANGED <<hs, files>>
\* the block itself puts another stream in place, which the end of the block undoes
Swap == /\ More /\ caps # <<>> /\ caps[Len(caps)].stream \in Streams /\ Log([Step("swap") EXCEPT !.stream = caps[Len(caps)].stream, !.files = files])
        /\ hist # <<>> /\ hist[Len(hist)].op = "enter" /\ UNCHANGED <<hs, files, caps, outs>>
\* the last n blocks end, normally or by an exception that goes through all of them
Join(s) == LET F[k \in 0..Len(s)] == IF k = 0 THEN "" ELSE F[k - 1] \o s[k] \o ";" IN F[Len(s)]
Leave == /\ More /\ caps # <<>>
         /\ \E n \in Pick(1..Len(caps)) : \E w \in Pick({"end", "error", "exit", "return"}) :
            /\ w \notin {"error", "exit"} => n = 1
            /\ caps' = SubSeq(caps, 1, Len(caps) - n)
            /\ Log([Step("leave") EXCEPT !.n = n, !.how = w, !.expect = Join(caps[Len(caps)].text), !.files = files])
         /\ UNCHANGED <<hs, files, outs>>
Swapped == \E i \in 1..Len(hist) : hist[i].op = "swap"
Acts == {"dump", "dumpbad", "load", "change", "drop"} \cup {"enter", "write", "leave", "swap"}
Done == Len(hist) = MaxSteps
Can(a) == a \in Doing /\ CASE a = "dump" -> Len(hs) < MaxHandles [] a \in {"load", "change"} -> Live # {} [] a = "drop" -> Held # {} [] a = "enter" -> Len(caps) < MaxCaptures [] a = "leave" -> caps # <<>>
  [] a = "swap" -> caps # <<>> /\ hist # <<>> /\ hist[Len(hist)].op = "enter" [] a = "dumpbad" -> Bad # {} [] OTHER -> TRUE
Do(a) == Can(a) /\ CASE a = "dump" -> Dump [] a = "dumpbad" -> DumpBad [] a = "load" -> Load [] a = "change" -> Change [] a = "drop" -> Drop [] a = "enter" -> Enter [] a = "write" -> Write [] a = "leave" -> Leave [] a = "swap" -> Swap
Next == ~Done /\ IF Random THEN \E a \in Pick({x \in Acts : Can(x)}) : Do(a) ELSE \E a \in Acts : Do(a)
Spec == Init /\ [][Next]_vars
\* --- properties ----------------------------------------------------------------------
\* a file is there exactly while its handle is (or it was to be kept)
Lives == files = {hs[i].file : i \in {j \in DOMAIN hs : hs[j].file # 0 /\ (hs[j].kind # "dead" \/ hs[j].keep)}}
\* every text written is in exactly one place
Texts(s) == {s[i] : i \in DOMAIN s}
Once == \A i, j \in DOMAIN caps : i # j => Texts(caps[i].text) \cap Texts(caps[j].text) = {}
Emit == Done => EmitRec([steps |-> hist, out |-> Join(outs.o), err |-> Join(outs.e), left |-> [i \in DOMAIN caps |-> Join(caps[i].text)]])
=============================================================================
