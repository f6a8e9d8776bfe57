------------------------------ MODULE PickleVM ------------------------------
(* C25 (trace validation).  The machine that executes pickle programs: stack,*)
(* marks, memo, frames.  Every recorded stream of opcodes must be a run of   *)
(* this machine that ends with STOP, exactly one object and no byte left.    *)
(* A recording: proto (requested), size, ops = sequence of <<name, arg, pos>>*)
(* (arg = memo index, version or frame length); a recording with several     *)
(* programs is one pickler used several times: the memo is kept.             *)
EXTENDS VT, Integers, Sequences, FiniteSets
\* opcode -> the oldest protocol that has it
Min(o) == CASE o \in {"INT", "LONG", "STRING", "NONE", "UNICODE", "FLOAT", "APPEND", "LIST", "TUPLE", "DICT", "SETITEM", "POP", "DUP", "MARK", "GET", "PUT", "GLOBAL", "REDUCE", "BUILD", "INST", "STOP", "PERSID"} -> 0
  [] o \in {"BININT", "BININT1", "BININT2", "BINSTRING", "SHORT_BINSTRING", "BINUNICODE", "BINFLOAT", "EMPTY_LIST", "APPENDS", "EMPTY_TUPLE", "EMPTY_DICT", "SETITEMS", "POP_MARK", "BINGET", "LONG_BINGET", "BINPUT", "LONG_BINPUT", "OBJ", "BINPERSID"} -> 1
  [] o \in {"LONG1", "LONG4", "NEWTRUE", "NEWFALSE", "TUPLE1", "TUPLE2", "TUPLE3", "EXT1", "EXT2", "EXT4", "NEWOBJ", "PROTO"} -> 2
  [] o \in {"BINBYTES", "SHORT_BINBYTES"} -> 3
  [] o \in {"BINBYTES8", "BINUNICODE8", "SHORT_BINUNICODE", "EMPTY_SET", "ADDITEMS", "FROZENSET", "NEWOBJ_EX", "STACK_GLOBAL", "MEMOIZE", "FRAME"} -> 4
  [] o \in {"BYTEARRAY8", "NEXT_BUFFER", "READONLY_BUFFER"} -> 5
  [] OTHER -> 99
Push(o) == CASE o \in {"INT", "LONG", "BININT", "BININT1", "BININT2", "LONG1", "LONG4", "FLOAT", "BINFLOAT", "NONE", "NEWTRUE", "NEWFALSE", "BINBYTES", "SHORT_BINBYTES", "BINBYTES8", "BYTEARRAY8", "NEXT_BUFFER"} -> "value"
  [] o \in {"STRING", "BINSTRING", "SHORT_BINSTRING", "UNICODE", "BINUNICODE", "BINUNICODE8", "SHORT_BINUNICODE"} -> "str"
  [] o = "EMPTY_LIST" -> "list" [] o = "EMPTY_TUPLE" -> "tuple" [] o = "EMPTY_DICT" -> "dict" [] o = "EMPTY_SET" -> "set"
  [] o \in {"GLOBAL", "EXT1", "EXT2", "EXT4"} -> "obj" [] OTHER -> "-"
VARIABLES tid, prog, pc, stack, marks, memo, frame, err
vars == <<tid, prog, pc, stack, marks, memo, frame, err>>
Init == tid \in 1..Len(Traces) /\ prog = 1 /\ pc = 1 /\ stack = <<>> /\ marks = <<>> /\ memo = <<>> /\ frame = -1 /\ err = ""
T == Traces[tid]
P == T.progs[prog]
Finished == prog > Len(T.progs)
N == Len(stack)
Top == stack[N]
Down(k) == stack[N - k + 1]      \* k-th from the top
Cut(k) == SubSeq(stack, 1, N - k)
\* (nothing may be taken below the last mark: the stack holds only what is above it)
Need(k) == N >= k
\* what stands directly under the mark
Under == IF marks = <<>> \/ marks[Len(marks)] = <<>> THEN "-" ELSE LET s == marks[Len(marks)] IN s[Len(s)]
Back == marks[Len(marks)]
CutBack(k) == SubSeq(Back, 1, Len(Back) - k)
Fail(c) == err' = c /\ frame' = frame /\ UNCHANGED <<tid, prog, pc, stack, marks, memo>>
Go(s, m, mm) == stack' = s /\ marks' = m /\ memo' = mm /\ pc' = pc + 1 /\ UNCHANGED <<tid, prog, err>>
St(s) == Go(s, marks, memo)
Unmark(s) == Go(s, SubSeq(marks, 1, Len(marks) - 1), memo)
Op == P.ops[pc]
NextPos == IF pc < Len(P.ops) THEN P.ops[pc+1][3] ELSE P.size
Put(i) == IF N = 0 THEN Fail("memo written with nothing on the stack") ELSE Go(stack, marks, (i :> Top) @@ memo)
Exec == LET o == Op[1] a == Op[2] IN
   IF ~(pc <= Len(P.ops)) THEN Fail("no STOP")
   ELSE IF pc = 1 /\ T.proto >= 2 /\ (o # "PROTO" \/ a # T.proto) THEN Fail("does not start with the requested protocol")
   ELSE IF Min(o) > T.proto THEN Fail("operation " \o o \o " is not in the requested protocol")
   ELSE IF Op[3] < frame /\ NextPos > frame THEN Fail("an operation crosses the end of a frame")
   ELSE IF o = "PROTO" THEN (IF pc = 1 THEN frame' = frame /\ St(stack) ELSE Fail("PROTO not at the start"))
   ELSE IF o = "FRAME" THEN (IF frame >= 0 /\ Op[3] < frame THEN Fail("frame inside a frame") ELSE IF Op[3] + 9 + a > P.size THEN Fail("frame longer than the stream") ELSE frame' = Op[3] + 9 + a /\ St(stack))
   ELSE /\ frame' = frame
        /\ IF Push(o) # "-" THEN St(Append(stack, Push(o)))
           ELSE CASE o = "MARK" -> Go(<<>>, Append(marks, stack), memo)
             [] o = "POP" -> IF Need(1) THEN St(Cut(1)) ELSE IF marks # <<>> THEN Unmark(Back) ELSE Fail("POP on empty stack")
             [] o = "DUP" -> IF Need(1) THEN St(Append(stack, Top)) ELSE Fail("DUP on empty stack")
             [] o \in {"GET", "BINGET", "LONG_BINGET"} -> IF a \in DOMAIN memo THEN St(Append(stack, memo[a])) ELSE Fail("undefined memo entry read")
             [] o \in {"PUT", "BINPUT", "LONG_BINPUT"} -> Put(a)
             [] o = "MEMOIZE" -> Put(Cardinality(DOMAIN memo))
             [] o = "APPEND" -> IF Need(2) /\ Down(2) \in {"list", "obj"} THEN St(Cut(1)) ELSE Fail("APPEND without a list")
             [] o = "SETITEM" -> IF Need(3) /\ Down(3) \in {"dict", "obj"} THEN St(Cut(2)) ELSE Fail("SETITEM without a dictionary")
             [] o = "TUPLE1" -> IF Need(1) THEN St(Append(Cut(1), "tuple")) ELSE Fail("TUPLE1 underflow")
             [] o = "TUPLE2" -> IF Need(2) THEN St(Append(Cut(2), "tuple")) ELSE Fail("TUPLE2 underflow")
             [] o = "TUPLE3" -> IF Need(3) THEN St(Append(Cut(3), "tuple")) ELSE Fail("TUPLE3 underflow")
             [] o \in {"LIST", "TUPLE", "DICT", "FROZENSET"} -> IF marks = <<>> THEN Fail(o \o " without mark") ELSE IF o = "DICT" /\ N % 2 # 0 THEN Fail("odd number of items for a dictionary")
                     ELSE Unmark(Append(Back, CASE o = "LIST" -> "list" [] o = "TUPLE" -> "tuple" [] o = "DICT" -> "dict" [] OTHER -> "set"))
             [] o = "POP_MARK" -> IF marks = <<>> THEN Fail("POP_MARK without mark") ELSE Unmark(Back)
             [] o = "APPENDS" -> IF Under \in {"list", "obj"} THEN Unmark(Back) ELSE Fail("APPENDS without a list")
             [] o = "ADDITEMS" -> IF Under \in {"set", "obj"} THEN Unmark(Back) ELSE Fail("ADDITEMS without a set")
             [] o = "SETITEMS" -> IF Under \in {"dict", "obj"} /\ N % 2 = 0 THEN Unmark(Back) ELSE Fail("SETITEMS without a dictionary or with an odd number of items")
             [] o = "STACK_GLOBAL" -> IF Need(2) /\ Down(1) = "str" /\ Down(2) = "str" THEN St(Append(Cut(2), "obj")) ELSE Fail("STACK_GLOBAL without two names")
             [] o = "REDUCE" -> IF Need(2) /\ Down(1) = "tuple" /\ Down(2) = "obj" THEN St(Append(Cut(2), "obj")) ELSE Fail("REDUCE without callable and arguments")
             [] o = "NEWOBJ" -> IF Need(2) /\ Down(1) = "tuple" /\ Down(2) = "obj" THEN St(Append(Cut(2), "obj")) ELSE Fail("NEWOBJ without class and arguments")
             [] o = "NEWOBJ_EX" -> IF Need(3) /\ Down(1) = "dict" /\ Down(2) = "tuple" /\ Down(3) = "obj" THEN St(Append(Cut(3), "obj")) ELSE Fail("NEWOBJ_EX without class and arguments")
             [] o = "BUILD" -> IF Need(2) THEN St(Cut(1)) ELSE Fail("BUILD without object and state")
             [] o = "INST" -> IF marks = <<>> THEN Fail("INST without mark") ELSE Unmark(Append(Back, "obj"))
             [] o = "OBJ" -> IF marks = <<>> \/ N < 1 THEN Fail("OBJ without mark") ELSE Unmark(Append(Back, "obj"))
             [] o = "READONLY_BUFFER" -> IF Need(1) THEN St(stack) ELSE Fail("READONLY_BUFFER on empty stack")
             [] o = "STOP" -> IF marks # <<>> THEN Fail("mark left at STOP") ELSE IF N # 1 THEN Fail("not exactly one object at STOP")
                              ELSE IF pc # Len(P.ops) \/ Op[3] + 1 # P.size THEN Fail("bytes after STOP") ELSE IF Op[3] < frame /\ frame # P.size THEN Fail("STOP is not at the end of its frame")
                              ELSE prog' = prog + 1 /\ pc' = 1 /\ stack' = <<>> /\ UNCHANGED <<tid, marks, memo, err>>
             [] OTHER -> Fail("operation " \o o \o " must not appear")
\* (frames are per program)
Step == ~Finished /\ err = "" /\ (IF pc = 1 /\ frame >= 0 THEN frame' = -1 /\ UNCHANGED <<tid, prog, pc, stack, marks, memo, err>> ELSE Exec)
Next == Step
Spec == Init /\ [][Next]_vars
Emit == /\ Finished => EmitRec([tid |-> tid, ok |-> TRUE])
        /\ err # "" => EmitRec([tid |-> tid, ok |-> FALSE, clause |-> err, prog |-> prog, pc |-> pc])
=============================================================================
