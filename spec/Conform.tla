------------------------------- MODULE Conform -------------------------------
(* Trace validation. Grammars are read from IOEnv.GRAMMARS, observations of   *)
(* the implementation from IOEnv.OBS: [g: grammar, i: input units, o: what    *)
(* the implementation showed]. Each observation is one behaviour of the       *)
(* machine; its last state must show the same.                                *)
(* (Next is written <<A>>_vars, and A takes a dummy parameter, because TLC's   *)
(* static level analysis otherwise walks every call path of the machine.)     *)
EXTENDS Views, Json, IOUtils

Grammars == JsonDeserialize(IOEnv.GRAMMARS)
Obs == ndJsonDeserialize(IOEnv.OBS)

VARIABLES j, s
vars == <<j, s>>

Ctx(n) == LET g == Grammars[Obs[n].g] IN
  [inp |-> Obs[n].i, enc |-> g.enc, prods |-> g.prods, root |-> g.root, maxdep |-> g.maxdep, fold |-> g.fold,
   topts |-> g.topts, lits |-> g.lits]

Init == j \in 1..Len(Obs) /\ s = [m |-> "new"]

(* the value an overflowing integer recovers with is not specified *)
AnyOverflow(t) == \E i \in 1..Len(t.log) : t.log[i][1] = "err" /\ t.log[i][5] = "overflow"
Same(o, x, t) ==
  \/ o = x
  \/ AnyOverflow(t) /\ Len(x) = Len(o) /\ Len(x) > 3 /\ [x EXCEPT ![4] = o[4]] = o
  \/ AnyOverflow(t) /\ Len(x) = 2 /\ Len(o) = 2 /\ x[1] = o[1]

Verdict(n, t) ==
  LET o == IF Grammars[Obs[n].g].view = "tree" THEN TreeOutcome(Ctx(n), t)
           ELSE IF Grammars[Obs[n].g].view = "scan" THEN ScanOutcome(Ctx(n), t) ELSE Outcome(Ctx(n), t) IN
  IF ~FinalSound(Ctx(n), t) THEN [m |-> "unsound"]
  ELSE IF Same(o, Obs[n].o, t) THEN [m |-> "conforms"]
  ELSE [m |-> "differs", expected |-> ToJson(o), shown |-> ToJson(Obs[n].o)]

Act(dummy) ==
  /\ j' = j
  /\ \/ s.m = "new" /\ s' = Start(Ctx(j))
     \/ s.m \in {"run","fail"} /\ s' = RunN(Ctx(j), s, 200)
     \/ s.m \in {"ok","bad"} /\ s' = Verdict(j, s)
Next == <<Act(0)>>_vars

Conforms == s.m = "differs" => (PrintT(<<"MISMATCH", j, s.expected>>) /\ FALSE)

(* the specification itself keeps its promises on every run *)
Sound == s.m = "unsound" => (PrintT(<<"UNSOUND", j, ToJson(Obs[j].i)>>) /\ FALSE)
=============================================================================
