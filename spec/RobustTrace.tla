---------------------------- MODULE RobustTrace ----------------------------
EXTENDS Robust, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES vH, vI
Ev == Traces[vH].ev
Init == vH \in 1..Len(Traces) /\ vI = 1
Next == /\ vI <= Len(Ev)
        /\ (IOEnv.DBG = "1" => PrintT(<<"EXP", vI, "an end with ok or err, no more things than the bytes can hold, no file left open">>))
        /\ IF "k" \in DOMAIN Ev[vI] THEN FailOK(Ev[vI], Ev[vI - 1]) ELSE RobustOK(Ev[vI])
        /\ vI' = vI + 1 /\ vH' = vH
        /\ (vI' > Len(Ev) => PrintT(<<"ACC", Traces[vH].id>>))
        /\ (IOEnv.DBG = "1" => PrintT(<<"AT", vI'>>))
Spec == Init /\ [][Next]_<<vH, vI>>
=============================================================================
