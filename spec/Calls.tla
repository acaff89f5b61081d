-------------------------------- MODULE Calls --------------------------------
(* Validation of calls: each observation in IOEnv.OBS is one call of the       *)
(* library with what it showed; Expect says what it has to show. `c` is 1 if   *)
(* the program did not survive the call.                                       *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANT Expect(_)
Obs == ndJsonDeserialize(IOEnv.OBS)

VARIABLES call, verdict
vars == <<call, verdict>>
Init == call \in 1..Len(Obs) /\ verdict = [m |-> "called"]
Verdict(ob) ==
  LET e == Expect(ob) IN
  IF ob.c = 0 /\ ob.o = e THEN [m |-> "conforms"] ELSE [m |-> "differs", expected |-> ToJson(e)]
Act(dummy) == verdict.m = "called" /\ verdict' = Verdict(Obs[call]) /\ call' = call
Next == <<Act(0)>>_vars
Conforms == verdict.m = "differs" => (PrintT(<<"MISMATCH", call, verdict.expected>>) /\ FALSE)
Sound == TRUE
=============================================================================
