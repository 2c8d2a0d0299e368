---------------------------- MODULE DriverTrace ----------------------------
(* Are the recorded uses of data bases over drivers of our own behaviours of Driver? *)
EXTENDS Driver, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES vH, vI, st
vars == <<vH, vI, st>>
Ev == Traces[vH].ev

AnswerOK(s, q, a) ==
  LET x == TLCEval(Ask(s, q))
  IN IF x.ok THEN a.r = "ok" /\ ("v" \in DOMAIN a => a.v = x.v) ELSE a.r = "err"
Init == vH \in 1..Len(Traces) /\ vI = 1 /\ st = DrvInit
Step(e) ==
  CASE e.op = "drvreg" -> e.r = "ok" /\ st' = Register(st, e)
    [] e.op = "drvfail" -> e.r = "ok" /\ st' = [st EXCEPT !.drvs[e.d].fail = e.fail]
    [] e.op = "drvopen" -> e.r = (IF OpenOK(st, e) THEN "ok" ELSE "err") /\ st' = OpenIn(st, e)
    [] e.op = "drvask" -> AnswerOK(st, e, e) /\ e.log = Ask(st, e).log /\ st' = st
    [] e.op = "drvpar" -> /\ e.r = "ok" /\ Len(e.rs) = Len(e.qs)
                          /\ \A i \in DOMAIN e.qs : AnswerOK(st, e.qs[i], e.rs[i])
                          /\ st' = st
Next == /\ vI <= Len(Ev)
        /\ (IOEnv.DBG = "1" => PrintT(<<"EXP", vI, IF Ev[vI].op = "drvask" THEN ToJson(Ask(st, Ev[vI])) ELSE "">>))
        /\ Step(Ev[vI])
        /\ vI' = vI + 1 /\ vH' = vH
        /\ (vI' > Len(Ev) => PrintT(<<"ACC", Traces[vH].id>>))
        /\ (IOEnv.DBG = "1" => PrintT(<<"AT", vI'>>))
Spec == Init /\ [][Next]_vars
=============================================================================
