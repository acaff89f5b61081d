-------------------------------- MODULE Hist --------------------------------
(* Validation of histories: each observation in IOEnv.OBS is a sequence of     *)
(* operations `s` on some state of the library, with what each of them showed  *)
(* in `o`. First(ob) is the state a history starts in; After(st, op, out) is   *)
(* the state after one operation that showed `out`, and whether it may have    *)
(* shown that: [st, ok, expect]. `c` is 1 if the program did not survive.      *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANTS First(_), After(_,_,_), Good(_)
Obs == ndJsonDeserialize(IOEnv.OBS)

VARIABLES hist, step, st, verdict
vars == <<hist, step, st, verdict>>
Init == /\ hist \in 1..Len(Obs) /\ step = 0 /\ st = First(Obs[hist]) /\ verdict = [m |-> "ok"]
Bad(e, i) == [m |-> "differs", expected |-> ToJson([step |-> i, expected |-> e])]
Do == LET ob == Obs[hist] IN
  /\ verdict.m = "ok" /\ step < Len(ob.s)
  /\ step' = step + 1 /\ hist' = hist
  /\ IF step + 1 > Len(ob.o) THEN st' = st /\ verdict' = Bad("the program survives", step + 1)
     ELSE LET r == After(st, ob.s[step + 1], ob.o[step + 1]) IN
          st' = r.st /\ verdict' = (IF r.ok THEN [m |-> "ok"] ELSE Bad(r.expect, step + 1))
Next == <<Do>>_vars
Conforms == verdict.m = "differs" => (PrintT(<<"MISMATCH", hist, verdict.expected>>) /\ FALSE)
Sound == Good(st) \/ (PrintT(<<"UNSOUND", hist, step>>) /\ FALSE)
=============================================================================
