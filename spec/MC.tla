---------------------------------- MODULE MC ----------------------------------
(* The machine on its own, one step at a time: every grammar of IOEnv.GRAMMARS *)
(* on every input of at most .bound characters of its alphabet, and some  *)
(* longer ones. Nothing                                                        *)
(* of the implementation takes part: this is what makes the machine fit to be  *)
(* an oracle. Every state of every run must satisfy the invariants below,      *)
(* every step the step properties, and every run must end.                     *)
EXTENDS Views, Json, IOUtils, TLC

Grammars == JsonDeserialize(IOEnv.GRAMMARS)

VARIABLES g, inp, s
vars == <<g, inp, s>>

C == [inp |-> inp, enc |-> Grammars[g].enc, prods |-> Grammars[g].prods, root |-> Grammars[g].root,
      maxdep |-> Grammars[g].maxdep, fold |-> Grammars[g].fold, topts |-> Grammars[g].topts, lits |-> Grammars[g].lits]

RECURSIVE Flat(_)
Flat(f) == IF f = <<>> THEN <<>> ELSE Head(f) \o Flat(Tail(f))

(* the characters of the alphabet as sequences of units *)
Alphabet(n) == {Grammars[n].chars[i] : i \in 1..Len(Grammars[n].chars)}

Init == /\ g \in 1..Len(Grammars)
        /\ \/ \E n \in 0..Grammars[g].bound : \E f \in [1..n -> Alphabet(g)] : inp = Flat(f)
           \/ \E i \in 1..Len(Grammars[g].more) : inp = Grammars[g].more[i]
        /\ s = [m |-> "new"]

Act(dummy) ==
  /\ UNCHANGED <<g, inp>>
  /\ \/ s.m = "new" /\ s' = Start(C)
     \/ s.m \in {"run","fail"} /\ s' = Step(C, s)
Next == <<Act(0)>>_vars
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

New == s.m = "new"

(* ------------------------------------------------------------ invariants -- *)
Pos == New \/ (0 <= s.p /\ s.p <= Len(inp))

Modes == s.m \in {"new","run","fail","ok","bad"}

(* everything that is reported lies in the input *)
Bounds == New \/ InBounds(s.log, Len(inp))

(* productions opened and not closed, innermost first *)
RECURSIVE Open(_,_,_)
Open(log, i, st) ==
  IF i > Len(log) THEN st
  ELSE Open(log, i+1, CASE log[i][1] = "ps" -> <<log[i][2]>> \o st
                        [] log[i][1] \in {"pf","pc"} -> Tail(st)
                        [] OTHER -> st)
RECURSIVE Frames(_)
Frames(k) == IF k = <<>> THEN <<>>
             ELSE (IF Head(k).o \in {"$prd","$root"} THEN <<Head(k).n>> ELSE <<>>) \o Frames(Tail(k))

(* the events so far leave exactly those productions open that are being       *)
(* parsed, in the order in which they are nested                               *)
Agenda == New \/ Terminal(s) \/ Open(s.log, 1, <<>>) = Frames(s.k)

(* no failure without an error *)
NoSilentFailure == (s.m \in {"fail","bad"}) => HasErr(s.log)

(* tokens tile the input all along: what is consumed so far is what the tokens *)
(* so far cover. (Inside of an input that is looked at only, and while failing, *)
(* the position may be before or after.)                                       *)
NoGap == New \/ Tiles(s.log, 1, 0) # -1

(* recursion depth: never negative, never beyond the limit while running *)
Depth == New \/ (s.dep >= 0 /\ (s.m = "run" => s.dep <= C.maxdep))

(* at the end everything is put back and everything is closed *)
End == Terminal(s) => FinalSound(C, s)

(* ------------------------------------------------------- step properties -- *)
IsPre(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

(* what is reported stays reported *)
History == [][~New => IsPre(s.log, s'.log)]_s

(* a failed run does not go on without a recovery, a finished one not at all *)
Finality == [][~Terminal(s)]_s

(* the characters a step has consumed are reported by that step *)
Progress == [][(~New /\ s'.p > s.p /\ s'.m = "run") => Len(s'.log) > Len(s.log)]_s

(* every run ends *)
Terminates == <>Terminal(s)
=============================================================================
