----------------------------- MODULE TokenTrace -----------------------------
(* Are the recorded answers of the server those of Token? *)
EXTENDS Token, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES vH, vI, st
Ev == Traces[vH].ev
Init == vH \in 1..Len(Traces) /\ vI = 1 /\ st = [acc |-> <<>>, brd |-> <<>>]
Next == /\ vI <= Len(Ev)
        /\ (IOEnv.DBG = "1" => PrintT(<<"EXP", vI, IF Ev[vI].op = "srv" THEN <<>>
                ELSE LET e == Ev[vI]
                         bad == {i \in DOMAIN e.reqs : IF i \in DOMAIN e.rs THEN ~AnswerOK(st, e.reqs[i], e.rs[i]) ELSE TRUE}
                     IN {[req |-> e.reqs[i], kinds |-> IF e.reqs[i].what = "token" THEN TokenKinds(st.acc, e.reqs[i]) ELSE {},
                          boards |-> IF e.reqs[i].what = "boards" THEN st.brd ELSE <<>>, answer |-> IF i \in DOMAIN e.rs THEN e.rs[i] ELSE Empty] : i \in bad}>>))
        /\ ServerStep(st, Ev[vI], st')
        /\ vI' = vI + 1 /\ vH' = vH
        /\ (vI' > Len(Ev) => PrintT(<<"ACC", Traces[vH].id>>))
        /\ (IOEnv.DBG = "1" => PrintT(<<"AT", vI'>>))
Spec == Init /\ [][Next]_<<vH, vI, st>>
=============================================================================
