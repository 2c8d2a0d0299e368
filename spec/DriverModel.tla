---------------------------- MODULE DriverModel ----------------------------
(* Part "fails": one data base of a driver with every set of capabilities, in which any one call fails (or
   two do), and every question asked of it.  Part "names": names, drivers, handles and sources; every call
   in every state, performed on the implementation as a tour. *)
EXTENDS Driver, IOUtils
CONSTANTS Part, AllCaps, Pairs

Letters == <<"n", "b", "a", "u", "c", "d">>
Data(x) ==
  LET K == {Key("users", <<>>), Key("boards", <<>>), Key("favs", <<"u">>), Key("arts", <<"B">>), Key("arts", <<"C">>), Key("treas", <<"B", "t">>),
            Key("file", <<"B", "f">>), Key("file", <<"C", "g">>), Key("tfile", <<"B", "t", "f">>), Key("uarts", <<"u">>), Key("ucmts", <<"u">>), Key("draft", <<"u", "0">>)}
      A(f, o) == [fn |-> f, own |-> o, title |-> "T" \o f]
  IN [k \in K |->
       CASE k = Key("users", <<>>) -> <<"u", "v">>
         [] k = Key("boards", <<>>) -> <<"B", "ALLPOST", "", "N", "C">>
         [] k = Key("favs", <<"u">>) -> <<"B">>
         [] k = Key("arts", <<"B">>) -> <<A("f", "v"), A("f", "uu")>>
         [] k = Key("arts", <<"C">>) -> <<A("g", "uu"), A("g", "u")>>
         [] k = Key("treas", <<"B", "t">>) -> <<A("t", "v")>>
         \* "uu: x 10/12 13:45", "ab:10/12 13:45"
         [] k = Key("file", <<"B", "f">>) -> <<"75753a20782031302f31322031333a34350a61623a31302f31322031333a3435">>
         [] k = Key("file", <<"C", "g">>) -> <<"78">>
         [] k = Key("tfile", <<"B", "t", "f">>) -> <<"7466">>
         [] k = Key("uarts", <<"u">>) -> <<>>
         [] k = Key("ucmts", <<"u">>) -> IF x THEN <<[own |-> "75", txt |-> "kept"]>> ELSE <<>>
         [] k = Key("draft", <<"u", "0">>) -> <<"6472">>]
Paths == DOMAIN Data(TRUE) \cup {Key("arts", <<"N">>)}
FailKeys == Paths \cup {"users|users()", "boards|boards()", "favs|favs(u)", "arts|arts(B)", "arts|arts(C)", "arts|treas(B,t)", "file|file(B,f)", "file|file(C,g)",
                        "file|tfile(B,t,f)", "uarts|uarts(u)", "ucmts|ucmts(u)", "draft|draft(u,0)"}
            \cup {"newboard", "addboard", "fname", "newart", "addart", "write", "append", "deldraft", "writedraft"}
Q(q) == [op |-> "drvask", q |-> q, h |-> "0", b |-> "B", u |-> "u", uhex |-> "75", fn |-> IF q \in {"draft", "deldraft", "writedraft"} THEN "0" ELSE "f",
         t |-> <<"t">>, c |-> "6363", title |-> "NT", date |-> "1/02"]
Reads == {"users", "favs", "boards", "arts", "treas", "file", "tfile", "uarts", "ucmts", "bcmts", "cmts", "draft"}
Qs == Reads \cup {"deldraft", "writedraft", "newboard", "addboard", "updboard", "getboard", "rmboard", "newart", "addart", "write", "append"}

VARIABLES st, act
vars == <<st, act>>
Chosen(S) == SelectSeq(Letters, LAMBDA x : x \in S)
RECURSIVE Text(_)
Text(ss) == IF ss = <<>> THEN "" ELSE ss[1] \o Text(Tail(ss))
Reg(n, d, S, f, x) == [op |-> "drvreg", n |-> n, d |-> d, caps |-> Text(Chosen(S)), cs |-> Chosen(S), data |-> Data(x), fail |-> f]
OpenOf(n, h, s) == [op |-> "drvopen", n |-> n, h |-> h, src |-> s]

CapSets == IF AllCaps THEN SUBSET SeqSet(Letters)
           ELSE {S \in SUBSET SeqSet(Letters) : Cardinality(S) \in {0, 1, 5, 6}}
FailSets == {{}} \cup {{k} : k \in FailKeys} \cup (IF Pairs THEN {{k, m} : k, m \in FailKeys} ELSE {})
Kinds == {"io", "noent"}

InitFails ==
  \E S \in CapSets, F \in FailSets, w \in Kinds, x \in BOOLEAN :
    /\ (w = "noent" => F # {})
    /\ (x => F \subseteq {"ucmts(u)", "ucmts|ucmts(u)"} /\ "c" \in S)
    /\ LET r == Reg("x", "d", S, [k \in F |-> w], x)
           o == OpenOf("x", "0", "s")
       IN st = OpenIn(Register(DrvInit, r), o) /\ act = <<r, o>>
Init == IF Part = "fails" THEN InitFails ELSE st = DrvInit /\ act = <<>>

Tour == IOEnv.TOUR = "1"
Fails2 == [k \in {Key("Open", <<"bad">>)} |-> "io"]
Calls == {Reg(n, d, IF d = "p" THEN {"n"} ELSE {}, Fails2, FALSE) : n \in {"x", "y"}, d \in {"p", "q"}}
         \cup {OpenOf(n, h, s) : n \in {"x", "y"}, h \in {"0", "1"}, s \in {"s", "t", "bad"}}
         \cup {[Q("boards") EXCEPT !.h = h] : h \in DOMAIN st.dbs}
After(c) == CASE c.op = "drvreg" -> Register(st, c)
              [] c.op = "drvopen" -> OpenIn(st, c)
              [] c.op = "drvask" -> st
\* a driver is registered once under each name (registering it again would be a new driver)
Allowed(c) == c.op # "drvreg" \/ c.d \notin DOMAIN st.drvs
Next == /\ Part = "names"
        /\ \E c \in {x \in Calls : Allowed(x)} :
             /\ st' = After(c) /\ act' = <<>>
             /\ (Tour => PrintT("TR@@@" \o ToJson(st) \o "@@@" \o ToJson(c) \o "@@@" \o ToJson(st')))
Spec == Init /\ [][Next]_vars

\* an operation whose part has failed reports it, and asks for no change after it; no answer from elsewhere
F == IF Part = "fails" THEN DOMAIN st.drvs["d"].fail ELSE {}
Reported == Part = "fails" =>
  \A q \in Qs : LET x == Answer(st, Q(q))
                IN /\ (~x.ok => x.v = <<>>)
                   /\ ((\E i \in DOMAIN x.log : x.log[i][1] \in F) => ~x.ok)
                   /\ \A i \in 1..(Len(x.log) - 1) : x.log[i][1] \notin F
                   /\ (q \in Reads => x.log = <<>>)
                   /\ (x.ok /\ q \notin Reads => x.log # <<>>)
\* what does not fail without failures is as without them, or is reported
Alike == Part = "fails" =>
  LET good == [st EXCEPT !.drvs["d"].fail = Empty]
  IN \A q \in Qs : LET x == Answer(st, Q(q))  y == Answer(good, Q(q))
                   IN x.ok => \/ x = y
                              \* a list that is not there counts as empty
                              \/ q \in {"arts", "uarts", "bcmts", "ucmts"} /\ \E b \in {"B", "C"} : "arts|" \o Key("arts", <<b>>) \in F /\ st.drvs["d"].fail["arts|" \o Key("arts", <<b>>)] = "noent"
\* a data base with its own connector answers from the source it was opened with
Own == Part = "names" =>
  \A h \in DOMAIN st.dbs : Can(st, h, "n") => Answer(st, [Q("boards") EXCEPT !.h = h]).v[1] = "B@p:" \o st.dbs[h].src
Shown == Part = "fails" => PrintT("VAL@@@" \o ToJson(act))
\* opening one handle does not change what another with its own connector answers
Apart == [][Part = "names" =>
            \A h \in DOMAIN st.dbs : st'.dbs[h] = st.dbs[h] /\ Can(st, h, "n") =>
               Answer(st', [Q("boards") EXCEPT !.h = h]) = Answer(st, [Q("boards") EXCEPT !.h = h])]_vars
=============================================================================
