------------------------------ MODULE ReportRun ------------------------------
(* Error reports: for every error the machine raises on an input, in order,    *)
(* what report_error has to write under each of the grammar's options. Options *)
(* at even places are used with a path. The last entries are the number of     *)
(* errors and what is written when nothing is configured.                      *)
EXTENDS Views, Report, Json, IOUtils
Grammars == JsonDeserialize(IOEnv.GRAMMARS)
Obs == ndJsonDeserialize(IOEnv.OBS)
VARIABLES j, s
vars == <<j, s>>
Ctx(n) == LET g == Grammars[Obs[n].g] IN
  [inp |-> Obs[n].i, enc |-> g.enc, prods |-> g.prods, root |-> g.root, maxdep |-> g.maxdep, fold |-> g.fold,
   topts |-> g.topts, lits |-> g.lits]
Init == j \in 1..Len(Obs) /\ s = [m |-> "new"]

\* the text of an error, never in colour
ErrorMessage(c, o, e) ==
  CASE e[2] = "lit" -> "expected '" \o VText(Plain(o), c.enc, c.lits[e[5]]) \o "'"
    [] e[2] = "kw" -> "expected keyword '" \o VText(Plain(o), c.enc, c.lits[e[5]]) \o "'"
    [] e[2] = "cc" -> "expected " \o e[5]
    [] OTHER -> e[2]
\* the range: of a literal, up to and including the unit that does not match; of a class, that unit
ErrorEnd(e) == CASE e[2] = "lit" -> e[4] + 1 [] e[2] = "cc" -> e[3] + 1 [] OTHER -> e[4]

RECURSIVE Reports(_,_,_,_,_,_,_)
Reports(c, o, path, log, i, ps, acc) ==
  IF i > Len(log) THEN acc
  ELSE LET e == log[i] IN
    CASE e[1] = "ps" -> Reports(c, o, path, log, i+1, << <<e[2], e[3]>> >> \o ps, acc)
      [] e[1] \in {"pf","pc"} -> Reports(c, o, path, log, i+1, Tail(ps), acc)
      [] e[1] = "err" -> Reports(c, o, path, log, i+1, ps,
             acc \o ErrorReport(o, c.enc, c.inp, path, CtxName(c, ps), ps[1][2], e[3], ErrorEnd(e), ErrorMessage(c, o, e)))
      [] OTHER -> Reports(c, o, path, log, i+1, ps, acc)
Written(c, t, o, path) ==
  LET r == Reports(c, o, path, t.log, 1, <<>>, "") IN IF HasErr(t.log) THEN r \o EOL ELSE ""
Count(t) == Cardinality({i \in 1..Len(t.log) : t.log[i][1] = "err"})
Report_(c, t) == [i \in 1..Len(c.topts) |-> Written(c, t, c.topts[i], IF i % 2 = 0 THEN "dir/a file" ELSE "")]
                 \o << ToString(Count(t)) \o " " \o Status(t), Written(c, t, DefOpt, "") >>
Verdict(n, t) ==
  LET o == Report_(Ctx(n), t) IN
  IF ~FinalSound(Ctx(n), t) THEN [m |-> "unsound"]
  ELSE IF o = Obs[n].o THEN [m |-> "conforms"]
  ELSE [m |-> "differs", expected |-> ToJson(o)]
Act(dummy) ==
  /\ j' = j
  /\ \/ s.m = "new" /\ s' = Start(Ctx(j))
     \/ s.m \in {"run","fail"} /\ s' = RunN(Ctx(j), s, 200)
     \/ s.m \in {"ok","bad"} /\ s' = Verdict(j, s)
Next == <<Act(0)>>_vars
Conforms == s.m = "differs" => (PrintT(<<"MISMATCH", j, s.expected>>) /\ FALSE)
Sound == s.m = "unsound" => (PrintT(<<"UNSOUND", j, ToJson(Obs[j].i)>>) /\ FALSE)
=============================================================================
