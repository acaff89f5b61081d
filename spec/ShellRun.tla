------------------------------- MODULE ShellRun -------------------------------
(* Parsing from an interactive shell: what the actions show is what the        *)
(* machine does on the whole text the user would type, and a further line is   *)
(* read only if the grammar needs it: the machine does different things        *)
(* depending on what follows the lines that have been read so far. The last    *)
(* entry of each observation is the number of lines that were read; k = 0 is   *)
(* the run on the whole text, k > 0 asks why line k + 1 was read.              *)
EXTENDS Views, Json, IOUtils
Grammars == JsonDeserialize(IOEnv.GRAMMARS)
Obs == ndJsonDeserialize(IOEnv.OBS)
NL == 10

VARIABLES j, k, x, first, s
vars == <<j, k, x, first, s>>

RECURSIVE Upto(_, _, _)     \* the first k lines
Upto(v, lines, at) == IF lines = 0 \/ at > Len(v) THEN at - 1 ELSE Upto(v, IF v[at] = NL THEN lines - 1 ELSE lines, at + 1)
Prefix(n) == SubSeq(Obs[n].i, 1, Upto(Obs[n].i, k, 1))
\* what might have followed: nothing, what did follow, any character
Following(n) == LET m == Upto(Obs[n].i, k, 1) IN
  <<<<>>, SubSeq(Obs[n].i, m + 1, Len(Obs[n].i))>> \o [c \in 1..Len(Grammars[Obs[n].g].alpha) |-> <<Grammars[Obs[n].g].alpha[c]>>]
    \o [c \in 1..Len(Grammars[Obs[n].g].alpha) |-> <<Grammars[Obs[n].g].alpha[c], NL>>]
Input(n) == IF k = 0 THEN Obs[n].i ELSE Prefix(n) \o Following(n)[x]
Ctx(n) == LET g == Grammars[Obs[n].g] IN
  [inp |-> Input(n), enc |-> g.enc, prods |-> g.prods, root |-> g.root, maxdep |-> g.maxdep, fold |-> g.fold, topts |-> g.topts, lits |-> g.lits]
LinesRead(n) == LET q == {l \in 0..30 : Obs[n].o # <<>> /\ Obs[n].o[Len(Obs[n].o)] = "lines " \o ToString(l)} IN IF q = {} THEN 0 ELSE CHOOSE l \in q : TRUE

Init == /\ j \in 1..Len(Obs) /\ k \in 0..(LinesRead(j) - 1) /\ x = 1 /\ first = <<>> /\ s = [m |-> "new"]

RECURSIVE LineCount(_, _)   \* lines there are, an unfinished one included
LineCount(v, at) == IF at > Len(v) THEN 0 ELSE LET n == Upto(v, 1, at) IN 1 + LineCount(v, n + 1)
Whole(n, t) ==
  LET o == Outcome(Ctx(n), t) IN
  IF ~FinalSound(Ctx(n), t) THEN [m |-> "unsound"]
  ELSE IF LinesRead(n) > 0 /\ LinesRead(n) <= LineCount(Obs[n].i, 1) + 1 /\ o = SubSeq(Obs[n].o, 1, Len(Obs[n].o) - 1) THEN [m |-> "conforms"]
  ELSE [m |-> "differs", expected |-> ToJson(o)]
Act(dummy) ==
  /\ j' = j /\ k' = k
  /\ \/ s.m = "new" /\ s' = Start(Ctx(j)) /\ UNCHANGED <<x, first>>
     \/ s.m \in {"run","fail"} /\ s' = RunN(Ctx(j), s, 200) /\ UNCHANGED <<x, first>>
     \/ s.m \in {"ok","bad"} /\ k = 0 /\ s' = Whole(j, s) /\ UNCHANGED <<x, first>>
     \/ s.m \in {"ok","bad"} /\ k > 0 /\
          LET o == Outcome(Ctx(j), s) IN
          CASE x > 1 /\ o # first -> s' = [m |-> "conforms"] /\ UNCHANGED <<x, first>>
            [] x = Len(Following(j)) -> s' = [m |-> "differs", expected |-> ToJson(<<"line " \o ToString(k + 1) \o " is not needed and not read">>)] /\ UNCHANGED <<x, first>>
            [] OTHER -> x' = x + 1 /\ first' = (IF x = 1 THEN o ELSE first) /\ s' = [m |-> "new"]
Next == <<Act(0)>>_vars
Conforms == s.m = "differs" => (PrintT(<<"MISMATCH", j, s.expected>>) /\ FALSE)
Sound == s.m = "unsound" => (PrintT(<<"UNSOUND", j, ToJson(Obs[j].i)>>) /\ FALSE)
=============================================================================
