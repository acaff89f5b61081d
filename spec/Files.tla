-------------------------------- MODULE Files --------------------------------
(* read_file and read_stdin. A call is a run of the reader against a system    *)
(* that answers each request from a script: opening succeeds or fails with an  *)
(* error number, a read delivers some of the bytes, none (the end), or fails.  *)
(* The reader ends with all bytes or with an error.                            *)
EXTENDS Convert
\* error numbers (Linux)
ENOENT == 2    EPERM == 1    EACCES == 13    ENOTDIR == 20    ELOOP == 40    EINTR == 4
OSError == <<1>>   NotFound == <<2>>   Denied == <<3>>
Class(e) == CASE e \in {ENOENT, ENOTDIR, ELOOP} -> NotFound
              [] e \in {EACCES, EPERM}          -> Denied
              [] OTHER                          -> OSError
\* the bytes of a generated file: n of them, after p (a prefix, e.g. a byte-order mark)
Byte(s, k) == ((k * 167) + ((k \div 256) * 59) + s) % 256
Content(ob) == ob.p \o [k \in 1..ob.n |-> Byte(ob.s, k)]
Digest(v) == << FoldLeft(LAMBDA h, u : ((h * 31) + (u % 65521)) % 65521, 7, v),
                FoldLeft(LAMBDA h, u : ((h * 257) + (u % 30011)) % 30011, 1, v) >>
\* what is shown of a buffer: how many code units, then the units or, when many, digests
Read(e, endian, bytes) ==
  LET v == Raw(e, endian, bytes) IN <<0, Len(v)>> \o (IF Len(v) <= 48 THEN v ELSE Digest(v))
(* ---- read_file ---- *)
\* script of a read: <<"give", at most so many>>, <<"end", 0>>, <<"fail", error number>>; after the script
\* everything that is asked for is delivered. The reader may retry after a short or interrupted read or give up.
RECURSIVE Reads(_, _, _)
Reads(script, left, bytes) ==          \* set of outcomes; `left` bytes are still to come
  IF left = 0 THEN {"all"}
  ELSE IF script = <<>> THEN {"all"}
  ELSE LET a == Head(script) IN
       CASE a[1] = "give" -> IF a[2] >= left THEN {"all"} ELSE {"error"} \cup Reads(Tail(script), left - a[2], bytes)
         [] a[1] = "end"  -> {"error"}
         [] a[1] = "fail" -> {"error"} \cup (IF a[2] = EINTR THEN Reads(Tail(script), left, bytes) ELSE {})
\* ob.hit: which of the scripted failures the reader ran into (it need not use every system call)
FileOutcomes(ob) ==
  LET ok == Read(ob.e, ob.en, Content(ob)) IN
  CASE ob.fault = "open" /\ ob.o[1] = 1 -> {Class(ob.err)}
    [] ob.fault = "seek" /\ ob.o[1] = 1 -> {OSError, Class(ob.err)}
    [] ob.fault = "map"  /\ ob.o[1] = 1 -> {OSError, Class(ob.err), ok}
    [] ob.fault = "read" /\ ob.o[1] = 1 ->
         {IF x = "all" THEN ok ELSE OSError : x \in Reads(ob.script, Len(Content(ob)), 0)}
           \cup {Class(a[2]) : a \in {x \in Range(ob.script) : x[1] = "fail"}}
    [] OTHER -> {ok}
(* ---- paths ---- *)
PathOutcomes(ob) ==
  CASE ob.kind \in {"missing", "below a file", "link loop", "empty", "missing directory", "dangling link"} -> {NotFound}
    [] ob.kind \in {"directory", "too long"} -> {OSError}
    [] ob.kind = "unreadable" -> {Denied}
    [] ob.kind = "fifo" -> {OSError, Read(ob.e, ob.en, Content(ob))}
    [] ob.kind \in {"link", "link to link", "relative", "device without bytes", "moved", "replaced", "appended"} -> {Read(ob.e, ob.en, Content(ob))}
(* ---- read_stdin: the bytes come in pieces of the given sizes until the end or an error ---- *)
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))
StdinOutcomes(ob) ==
  IF ob.err # 0 THEN {OSError, Class(ob.err)}
  ELSE {Read(ob.e, ob.en, Content(ob))}
(* ---- *)
Outcomes(ob) == CASE ob.f = "file" -> FileOutcomes(ob) [] ob.f = "path" -> PathOutcomes(ob) [] ob.f = "stdin" -> StdinOutcomes(ob)
\* a second read of the same file shows the same; of standard input (at its end) nothing
Second(ob) == CASE ob.f = "stdin" /\ ob.err = 0 -> Read(ob.e, ob.en, <<>>) [] OTHER -> <<>>
FileExpectation(ob) ==
  IF ob.c = 1 \/ ob.o = <<>> THEN CHOOSE x \in Outcomes([ob EXCEPT !.o = <<0>>]) : TRUE
  ELSE LET shown == Tail(ob.o)  want == Outcomes(ob)
           twice(x) == <<Head(ob.o)>> \o x \o Second(ob) IN
       IF \E x \in want : ob.o = twice(x) THEN ob.o ELSE twice(CHOOSE x \in want : TRUE)
=============================================================================
