------------------------------ MODULE ShmTrace ------------------------------
(* Are the recorded histories of caches behaviours of Shm? *)
EXTENDS Shm, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES vH, vI, st
Ev == Traces[vH].ev
ShmSame(e, f, v) == IF f = "v" /\ e.op # "shmkept" /\ e.what # "info" THEN e[f] = v
                    ELSE IF f = "v" THEN DOMAIN e[f] # {} /\ \A g \in DOMAIN e[f] : e[f][g] = v[g]
                    ELSE e[f] = v
Init == vH \in 1..Len(Traces) /\ vI = 1 /\ st = ShmInit
(* An opening or closing during which a system call fails: it is reported, or overcome.  A file that was
   to be created may have been emptied, and need not be there. *)
FailStates(s, e) ==
  IF e.op \in {"shmcreate", "shmopen"}
  THEN {o.st : o \in Err(s)}
       \cup (IF e.op = "shmcreate" /\ e.kind = "file" /\ e.where = ""
             THEN LET n == ShmNm(e)
                      new == IF n \in DOMAIN s.names THEN s.names[n] ELSE Fresh(s)
                  IN {[s EXCEPT !.names = Put(@, n, new), !.segs = Put(@, new, Content(k, <<>>))] : k \in {0, IF e.size < 0 THEN 0 ELSE e.size}}
             ELSE {})
  ELSE {o.st : o \in ShmOutcomes(s, e)}
ShmFail ==
  LET f == Ev[vI]
      e == f.e
  IN /\ \/ e.r = "err" /\ st' \in FailStates(st, e)
        \* what was written through the mapping does not go through the descriptor
        \/ /\ f.strict = 0 \/ e.op = "shmclose"
           /\ e.r = "ok"
           /\ \E o \in ShmOutcomes(st, e) : o.r = "ok" /\ st' = o.st
     /\ e.nfd <= FdLimit(st')
     /\ (IOEnv.DBG = "1" => PrintT(<<"EXP", vI, "an error, or the whole effect; no descriptor more than the open handles need">>))
ShmEvent == LET e == Ev[vI]
           IN /\ (IOEnv.DBG = "1" => PrintT(<<"EXP", vI, {[r |-> o.r, obs |-> o.obs] : o \in ShmOutcomes(st, e)}>>))
              /\ \E o \in ShmOutcomes(st, e) : /\ e.r = o.r
                                               /\ \A f \in DOMAIN o.obs : ShmSame(e, f, o.obs[f])
                                               /\ ("nfd" \in DOMAIN e => e.nfd <= FdLimit(o.st))
                                               /\ st' = o.st
Next == /\ vI <= Len(Ev)
        /\ IF "k" \in DOMAIN Ev[vI] THEN ShmFail ELSE ShmEvent
        /\ vI' = vI + 1 /\ vH' = vH
        /\ (vI' > Len(Ev) => PrintT(<<"ACC", Traces[vH].id>>))
        /\ (IOEnv.DBG = "1" => PrintT(<<"AT", vI'>>))
Spec == Init /\ [][Next]_<<vH, vI, st>>
=============================================================================
