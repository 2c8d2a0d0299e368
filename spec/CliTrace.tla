------------------------------ MODULE CliTrace ------------------------------
(* Histories in which some of the operations are runs of the tool *)
EXTENDS Cli, BBSTrace

CliOps == {"cli", "clis", "cfile"}
IsCli == IF vI > Len(Ev) THEN FALSE ELSE IF Has(Ev[vI], "k") THEN FALSE ELSE Ev[vI].op \in CliOps
CliStep ==
  LET e == Ev[vI]
      runs == IF e.op = "cli" THEN {e} ELSE IF e.op = "clis" THEN SeqSet(e.es) ELSE {}
      after == IF e.op = "cfile" THEN {[st EXCEPT !.vals = Put(@, e.path, e.c)]} ELSE CliMany({st}, runs)
  IN /\ e.r = "ok"
     /\ (IOEnv.DBG = "1" => PrintT(<<"EXP", vI, IF e.op = "cli" /\ Len(e.a) > 0
                                                THEN (IF e.a[1] \in DOMAIN ReadSubs /\ e.home \in st.dirs THEN CliViews(st, e.home, ReadSubs[e.a[1]], CliArgs(Tail(e.a)).m) ELSE {HStr(e.a[1])}) ELSE {}>>))
     /\ (Has(e, "chg") /\ e.op # "cfile" =>
           LET w == UNION {CliWrites(st, x) : x \in runs} IN SeqSet(e.chg) \subseteq w \cup {p \o "/" : p \in w})
     /\ \E s \in after : st' = [s EXCEPT !.hd = st.hd]
     /\ dig' = Empty /\ pend' = pend
     /\ Done(vI + 1)
CliNext == IF IsCli THEN CliStep ELSE Next
CliSpec == Init /\ [][CliNext]_vars
=============================================================================
