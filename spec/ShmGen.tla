------------------------------- MODULE ShmGen -------------------------------
(* Computes where things are, for given configurations. *)
EXTENDS Shm, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES vH, vDone
\* the fields do not overlap, and are in the order of the struct
Sane(c) == LET p == ShmPos(c) IN
  /\ p.userid + (c.idlen + 1) * (c.users + 1) <= p.next /\ (c.align = 0 \/ p.next % c.align = 0) /\ p.next + 4 * c.users < p.money
  /\ p.money + 4 * c.users * (1 + c.cool) < p.hash /\ p.hash + 4 * 2 ^ c.bits < p.number /\ p.loaded + 4 = p.info
Init == vH \in 1..Len(Traces) /\ vDone = FALSE
Next == /\ ~vDone
        /\ vDone' = TRUE
        /\ vH' = vH
        /\ Assert(Sane(Traces[vH]), "layout")
        /\ PrintT("VAL@@@" \o ToJson([cfg |-> Traces[vH], pos |-> ShmPos(Traces[vH])]))
Spec == Init /\ [][Next]_<<vH, vDone>>
\* the dump of a running BBS, which its documentation describes: 50 users, ids of 12
ASSUME LET p == ShmPos([align |-> 4, users |-> 50, idlen |-> 12, cool |-> 1, bits |-> 16])
       IN p.next = 672 /\ p.money = 876 /\ p.hash = 1284
=============================================================================
