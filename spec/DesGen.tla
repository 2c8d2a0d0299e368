------------------------------- MODULE DesGen -------------------------------
(* Computes the hashes of given passwords: [pw, salt] lines in, hashes printed. *)
EXTENDS DesCrypt, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES vH, vDone
Init == vH \in 1..Len(Traces) /\ vDone = FALSE
Next == /\ ~vDone
        /\ vDone' = TRUE
        /\ vH' = vH
        /\ PrintT("VAL@@@" \o ToJson([pw |-> Traces[vH].pw, salt |-> Traces[vH].salt,
                                      hash |-> DesHash(Traces[vH].pw, Traces[vH].salt)]))
Spec == Init /\ [][Next]_<<vH, vDone>>
=============================================================================
