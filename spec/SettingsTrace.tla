---------------------------- MODULE SettingsTrace ----------------------------
(* Recorded histories: account files loaded, settings of users asked for. *)
EXTENDS Settings, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES vH, vI, vA
vars == <<vH, vI, vA>>
Ev == Traces[vH].ev

AskedOK(e) == \E x \in Told(vA, e.id) :
                /\ e.r = x.r
                /\ (x.r = "ok" => /\ SeqSet(e.on) \cap DOMAIN UserSettings = x.on \cap SeqSet(e.asked))
                /\ (x.r = "err" => e.on = <<>>)

Init == vH \in 1..Len(Traces) /\ vI = 1 /\ vA = <<>>
Next == /\ vI <= Len(Ev)
        /\ LET e == Ev[vI]
           IN IF e.op = "load"
              THEN \E x \in ReadAll("user", e.c) : e.r = x.r /\ Len(e.flags) = Len(x.v) /\ (\A i \in DOMAIN x.v : e.flags[i] = x.v[i].userflag) /\ vA' = x.v
              ELSE /\ (IOEnv.DBG = "1" => PrintT(<<"EXP", vI, Told(vA, e.id)>>))
                   /\ AskedOK(e) /\ UNCHANGED vA
        /\ vI' = vI + 1 /\ vH' = vH
        /\ (vI' > Len(Ev) => PrintT(<<"ACC", Traces[vH].id>>))
        /\ (IOEnv.DBG = "1" => PrintT(<<"AT", vI'>>))
Spec == Init /\ [][Next]_vars
=============================================================================
