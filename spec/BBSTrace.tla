------------------------------ MODULE BBSTrace ------------------------------
(* Are the recorded histories behaviours of BBS?  Every line of the trace file is one history:
   [id |-> .., ev |-> <<event, ...>>].  An event is one of
     an operation with its arguments and everything observed of it      (no field k)
     [k |-> "call", c |-> client, ...] / [k |-> "ret", c |-> client]     (concurrent histories; the
         call carries the arguments and the observed result, the operation takes effect in between)
     [k |-> "kill", c |-> client]   the client stops in the middle of its call
     [k |-> "crash"]    the clients stop: each pending call has happened or not
     [k |-> "fail", ...] an operation during which a system call was made to fail *)
EXTENDS BBS, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES vH, vI, st, pend, dig
vars == <<vH, vI, st, pend, dig>>

Ev == Traces[vH].ev
Has(e, f) == f \in DOMAIN e

Init == /\ vH \in 1..Len(Traces)
        /\ vI = 1
        /\ st = InitState
        /\ pend = Empty
        /\ dig = Empty
        /\ (Len(Ev) = 0 => PrintT(<<"ACC", Traces[vH].id>>))

\* the returned values are those of the outcome; text read while its content was unknown becomes known
Match(e, o) == /\ e.r = o.r
               /\ \A f \in DOMAIN o.obs : (f = "c" /\ o.obs[f] = Unknown) \/ e[f] = o.obs[f]
               /\ (Has(e, "argmod") => e.argmod = 0)
               /\ (Has(e, "kept") => e.kept = 0)      \* what was handed out before is still what it was
               /\ (Has(e, "fds") => e.fds <= 0)

\* digests of the entries of a list file: nothing but the entry asked for may change, byte for byte
DigPath(s, e) == IF e.op \in {"addboard", "rmboard"} THEN BrdPath(Home(s, e)) ELSE ListPath(Home(s, e), e.b)
DigOK(s, e) ==
  IF ~Has(e, "ls") THEN TRUE ELSE IF IsSetup(e) THEN TRUE ELSE IF (IF Has(e, "b") THEN e.b = "" ELSE FALSE) THEN TRUE ELSE
  LET p == DigPath(s, e)
      w == IF e.op \in {"addboard", "rmboard"} THEN 256 ELSE 128
      n == Len(e.ls)
  IN IF p \notin DOMAIN dig THEN TRUE ELSE
     LET d == dig[p] IN
     IF e.r = "err" THEN e.ls = d
     ELSE /\ e.sz = w * n
          /\ CASE e.op \in {"add", "addvar", "addcopy", "addboard"} -> n = Len(d) + 1 /\ SubSeq(e.ls, 1, n - 1) = d
               [] e.op = "upd" -> n = Len(d) /\ \A j \in 1..n : j # e.ix + 1 => e.ls[j] = d[j]
               [] e.op = "rmboard" -> e.ls = RemoveIdx(d, e.ix + 1)
DigNext(s, e) ==
  IF ~Has(e, "ls") THEN dig
  ELSE IF IsSetup(e) THEN Put(dig, e.path, e.ls)
  ELSE IF (IF Has(e, "b") THEN e.b = "" ELSE FALSE) THEN dig
  ELSE Put(dig, DigPath(s, e), e.ls)

Learn(s, e) == IF e.op = "read" /\ e.r = "ok" THEN [s EXCEPT !.texts = Put(@, ArtPath(Home(s, e), e.b, e.f), e.c)]
               ELSE IF e.op = "rdraft" /\ e.r = "ok" /\ DraftPath(Home(s, e), e.u, e.d) \in DOMAIN s.texts
                    THEN [s EXCEPT !.texts = Put(@, DraftPath(Home(s, e), e.u, e.d), e.c)]
               ELSE s

Done(n) == /\ vI' = n /\ vH' = vH
           /\ (n > Len(Ev) => PrintT(IF st'.dev = "" THEN <<"ACC", Traces[vH].id>>
                                                     ELSE <<"DEV", Traces[vH].id, st'.dev>>))
           /\ (IOEnv.DBG = "1" => PrintT(<<"AT", n>>))

\* a call that nothing else overlaps
Atomic ==
  /\ vI <= Len(Ev) /\ ~Has(Ev[vI], "k")
  /\ LET e == Ev[vI]
     IN /\ (IOEnv.DBG = "1" => PrintT(<<"EXP", vI, {[r |-> o.r, obs |-> o.obs] : o \in Outcomes(st, e)}>>))
        /\ (Has(e, "chg") => StaysInside(st, e))
        /\ DigOK(st, e)
        /\ \E o \in Outcomes(st, e) : Match(e, o) /\ st' = Learn(o.st, e)
        /\ dig' = DigNext(st, e)
  /\ pend' = pend
  /\ Done(vI + 1)

-----------------------------------------------------------------------------
(* Concurrent clients.  A reader of a list does not see it at one instant: it reads the entries one
   after the other, each at its own moment, and stops where it finds the end. *)
Call ==
  /\ vI <= Len(Ev) /\ Has(Ev[vI], "k") /\ Ev[vI].k = "call"
  /\ pend' = Put(pend, Ev[vI].c, [e |-> Ev[vI].e, at |-> 0, done |-> FALSE])
  /\ dig' = Empty
  /\ UNCHANGED st
  /\ Done(vI + 1)

IsReader(e) == e.op \in {"list", "boards"} /\ e.r = "ok"
Current(e) == IF e.op = "list" THEN GetList(st, ListPath(Home(st, e), e.b)) ELSE GetBrd(st, BrdPath(Home(st, e)))

Lin(c) ==
  /\ ~pend[c].done
  /\ LET e == pend[c].e
     IN IF e.r = "killed"
        THEN /\ st' \in Interrupted(st, e)
             /\ pend' = [pend EXCEPT ![c].done = TRUE]
        ELSE IF IsReader(e)
        THEN LET at == pend[c].at
                 l == Current(e)
             IN IF at < Len(e.v)
                THEN /\ at < Len(l) /\ l[at + 1] = e.v[at + 1]
                     /\ pend' = [pend EXCEPT ![c].at = at + 1]
                     /\ st' = st
                ELSE /\ Len(l) = at
                     /\ pend' = [pend EXCEPT ![c].done = TRUE]
                     /\ st' = st
        ELSE /\ \E o \in Outcomes(st, e) : Match(e, o) /\ st' = Learn(o.st, e)
             /\ pend' = [pend EXCEPT ![c].done = TRUE]
  /\ UNCHANGED <<vH, vI, dig>>

Ret ==
  /\ vI <= Len(Ev) /\ Has(Ev[vI], "k") /\ Ev[vI].k = "ret"
  /\ pend[Ev[vI].c].done
  /\ pend' = Drop(pend, Ev[vI].c)
  /\ UNCHANGED <<st, dig>>
  /\ Done(vI + 1)

\* a client that was stopped: what it had begun has happened (Lin) or has not
Kill ==
  /\ vI <= Len(Ev) /\ Has(Ev[vI], "k") /\ Ev[vI].k = "kill"
  /\ pend' = Drop(pend, Ev[vI].c)
  /\ UNCHANGED <<st, dig>>
  /\ Done(vI + 1)

(* A write of which only a part arrived.  The entry being updated is then of unknown content; which
   one it is, is taken from what is read later.  An addition must leave the list as it was; that it
   leaves an incomplete entry behind is a deviation known of the implementation, and is reported. *)
LaterLists(s, e) ==
  {Ev[j].v : j \in {x \in (vI + 1)..Len(Ev) :
                      IF Has(Ev[x], "k") THEN FALSE
                      ELSE /\ Ev[x].r = "ok" /\ Ev[x].h = e.h
                           /\ IF e.op = "addboard" THEN Ev[x].op = "boards" ELSE Ev[x].op = "list" /\ Ev[x].b = e.b}}
Torn(s, e) ==
  IF e.op = "upd"
  THEN LET p == ListPath(Home(s, e), e.b)
           l == GetList(s, p)
       IN {[s EXCEPT !.lists = Put(@, p, [l EXCEPT ![e.ix + 1] = v[e.ix + 1]])]
             : v \in {w \in LaterLists(s, e) : Len(w) = Len(l) /\ e.ix < Len(l)}}
  ELSE IF e.op = "add"
  THEN LET p == ListPath(Home(s, e), e.b)
           l == GetList(s, p)
           t == [s EXCEPT !.torn = @ \cup {p}, !.dev = "torn-add"]
       IN {[t EXCEPT !.lists = Put(@, p, l)]} \cup
          {[t EXCEPT !.lists = Put(@, p, Append(l, v[Len(v)]))] : v \in {w \in LaterLists(s, e) : Len(w) = Len(l) + 1}}
  ELSE IF e.op = "addboard"
  THEN LET p == BrdPath(Home(s, e))
           l == GetBrd(s, p)
           t == [s EXCEPT !.torn = @ \cup {p}, !.dev = "torn-addboard"]
       IN {[t EXCEPT !.brds = Put(@, p, l)]} \cup
          {[t EXCEPT !.brds = Put(@, p, Append(l, v[Len(v)]))] : v \in {w \in LaterLists(s, e) : Len(w) = Len(l) + 1}}
  ELSE IF e.op = "append"
  THEN LET p == ArtPath(Home(s, e), e.b, e.f)
       IN IF p \in DOMAIN s.texts /\ s.texts[p] # Unknown
          THEN {[s EXCEPT !.texts = Put(@, p, @[p] \o SubSeq(e.c, 1, 2 * k))] : k \in 0..HLen(e.c)} ELSE {}
  ELSE {}

IsFail == vI <= Len(Ev) /\ Has(Ev[vI], "k") /\ Ev[vI].k \in {"crash", "fail"}
\* with a failed system call: reported (the operation has happened completely or not at all), or
\* overcome (the operation has had its complete effect)
Crash ==
  /\ IsFail
  /\ LET e == Ev[vI].e
     IN /\ (Has(e, "fds") => e.fds <= 0)
        /\ \/ /\ Ev[vI].k = "crash" \/ e.r = "err"
              /\ st' \in Interrupted(st, e) \cup (IF Ev[vI].call = "short-write" THEN Torn(st, e) ELSE {})
           \/ /\ Ev[vI].k = "fail" /\ Ev[vI].strict = 0 /\ e.r = "ok"
              /\ \E o \in Outcomes(st, e) : Match(e, o) /\ st' = Learn(o.st, e)
  /\ UNCHANGED pend
  /\ dig' = Empty
  /\ Done(vI + 1)

Next == Atomic \/ Call \/ Ret \/ Kill \/ Crash \/ \E c \in DOMAIN pend : Lin(c)
Spec == Init /\ [][Next]_vars
=============================================================================
