------------------------------- MODULE Driver -------------------------------
(* The data bases of the library are opened under the names of drivers.  What a data base answers is what
   its own driver has at the path the driver names for what was asked; what it changes is what it asks of
   that driver, once; a driver's error ends the operation and is reported.

   st.names  name -> driver
   st.drvs   driver -> [caps, data, fail, src]: what it supports (a set of letters), what it holds, which
             of its calls fail and how, and what it has been opened with if all data bases share it
   st.dbs    handle -> [d, src]: the driver, and the source of the data base's own connector

   Capabilities: n a connector for each data base, b writing boards, a writing articles, u / c lists of a
   user's articles / comments kept by the driver, d drafts. *)
EXTENDS Comments, Json

DrvInit == [names |-> Empty, drvs |-> Empty, dbs |-> Empty]
Drv(st, h) == st.drvs[st.dbs[h].d]
Can(st, h, x) == x \in Drv(st, h).caps
Who(st, h) == "@" \o st.dbs[h].d \o ":" \o (IF Can(st, h, "n") THEN st.dbs[h].src ELSE Drv(st, h).src)

RECURSIVE Joined(_)
Joined(ss) == IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o "," \o Joined(Tail(ss))
Key(m, args) == m \o "(" \o Joined(args) \o ")"

FailOf(st, h, k) == LET f == Drv(st, h).fail IN IF k \in DOMAIN f THEN f[k] ELSE ""
\* the outcomes of one part of an operation: [ok, v], or not ok with the kind of the error
Good(v) == [ok |-> TRUE, why |-> "", v |-> v]
Bad(w) == [ok |-> FALSE, why |-> w, v |-> <<>>]
\* reading with the driver's function m what is at the path k
Reading(st, h, m, k) ==
  LET data == Drv(st, h).data
  IN IF FailOf(st, h, k) # "" THEN Bad("path")
     ELSE IF FailOf(st, h, m \o "|" \o k) # "" THEN Bad(FailOf(st, h, m \o "|" \o k))
     ELSE IF k \notin DOMAIN data THEN Bad("noent")
     ELSE Good(data[k])
Content(z) == IF z.ok THEN Good(IF z.v = <<>> THEN "" ELSE z.v[1]) ELSE z

Arts(st, h, b) == LET z == Reading(st, h, "arts", Key("arts", <<b>>))
                  IN IF z.why = "noent" THEN Good(<<>>) ELSE z        \* a board without list has no articles
Boards(st, h) == Reading(st, h, "boards", Key("boards", <<>>))
Listed(bs) == SelectSeq(bs, LAMBDA b : b # "" /\ b # "ALLPOST")

\* the parts one after the other, up to the first error
RECURSIVE Chain(_)
Chain(zs) == IF zs = <<>> THEN Good(<<>>)
             ELSE IF ~Head(zs).ok THEN Head(zs)
             ELSE LET rest == Chain(Tail(zs)) IN IF rest.ok THEN Good(Head(zs).v \o rest.v) ELSE rest

Marked(st, h, es) == [i \in DOMAIN es |-> [es[i] EXCEPT !.title = @ \o Who(st, h)]]
UserArts(st, h, u) ==
  LET kept == IF Can(st, h, "u") THEN Reading(st, h, "uarts", Key("uarts", <<u>>)) ELSE Good(<<>>)
      bs == Boards(st, h)
      OfBoard(b) == LET z == Arts(st, h, b)
                    IN IF z.ok THEN Good([i \in DOMAIN SelectSeq(z.v, LAMBDA a : a.own = u) |->
                                            LET a == SelectSeq(z.v, LAMBDA x : x.own = u)[i]
                                            IN [b |-> b, fn |-> a.fn, own |-> a.own, title |-> a.title]]) ELSE z
  IN IF ~kept.ok THEN kept
     ELSE LET z == IF kept.v # <<>> THEN kept
                   ELSE IF ~bs.ok THEN bs
                   ELSE Chain([i \in DOMAIN Listed(bs.v) |-> OfBoard(Listed(bs.v)[i])])
          IN IF z.ok THEN Good(Marked(st, h, z.v)) ELSE z

ArticleComments(st, h, b, fn) ==
  LET z == Content(Reading(st, h, "file", Key("file", <<b, fn>>)))
  IN IF ~z.ok THEN z
     ELSE LET k == Comments(z.v)
          IN IF ~k.ok \/ k.long THEN Bad("comment")
             ELSE Good([i \in DOMAIN k.cs |-> [n |-> k.cs[i].n, own |-> k.cs[i].own, t |-> k.cs[i].t, txt |-> k.cs[i].txt, b |-> b, fn |-> fn]])
BoardComments(st, h, b, uhex) ==
  LET z == Arts(st, h, b)
      all == Chain([i \in DOMAIN z.v |-> ArticleComments(st, h, b, z.v[i].fn)])
  IN IF ~z.ok THEN z ELSE IF ~all.ok THEN all ELSE Good(SelectSeq(all.v, LAMBDA c : c.own = uhex))
UserComments(st, h, u, uhex) ==
  LET kept == IF Can(st, h, "c") THEN Reading(st, h, "ucmts", Key("ucmts", <<u>>)) ELSE Good(<<>>)
      bs == Boards(st, h)
  IN IF ~kept.ok THEN kept
     ELSE IF kept.v # <<>> THEN Good([i \in DOMAIN kept.v |-> [own |-> kept.v[i].own, txt |-> kept.v[i].txt \o Who(st, h)]])
     ELSE IF ~bs.ok THEN bs
     ELSE Chain([i \in DOMAIN Listed(bs.v) |-> BoardComments(st, h, Listed(bs.v)[i], uhex)])

\* what is asked of the driver, and what comes of it: [ok, v, log]
Did(ok, v, log) == [ok |-> ok, v |-> v, log |-> log]
Asked(z) == Did(z.ok, z.v, <<>>)
No == Did(FALSE, <<>>, <<>>)
\* a change at the path k; x is what the driver is asked with it
Change(st, h, cap, m, k, x) ==
  IF ~Can(st, h, cap) \/ FailOf(st, h, k) # "" THEN No
  ELSE Did(FailOf(st, h, m) = "", <<>>, << <<m, k \o Who(st, h)>> \o x >>)

Ask(st, e) ==
  LET h == e.h
      Names(z) == IF z.ok THEN Good([i \in DOMAIN z.v |-> z.v[i] \o Who(st, h)]) ELSE z
      Entries(z) == IF z.ok THEN Good(Marked(st, h, z.v)) ELSE z
      who == SubSeq(Who(st, h), 2, Len(Who(st, h)))
  IN CASE e.q = "users" -> Asked(Names(Reading(st, h, "users", Key("users", <<>>))))
       [] e.q = "favs" -> Asked(Names(Reading(st, h, "favs", Key("favs", <<e.u>>))))
       [] e.q = "boards" -> Asked(Names(Boards(st, h)))
       [] e.q = "arts" -> Asked(Entries(Arts(st, h, e.b)))
       [] e.q = "treas" -> Asked(Entries(Reading(st, h, "arts", Key("treas", <<e.b>> \o e.t))))
       [] e.q = "file" -> Asked(Content(Reading(st, h, "file", Key("file", <<e.b, e.fn>>))))
       [] e.q = "tfile" -> Asked(Content(Reading(st, h, "file", Key("tfile", <<e.b>> \o e.t \o <<e.fn>>))))
       [] e.q = "uarts" -> Asked(UserArts(st, h, e.u))
       [] e.q = "ucmts" -> Asked(UserComments(st, h, e.u, e.uhex))
       [] e.q = "bcmts" -> Asked(BoardComments(st, h, e.b, e.uhex))
       [] e.q = "cmts" -> Asked(ArticleComments(st, h, e.b, e.fn))
       [] e.q = "draft" -> IF Can(st, h, "d") THEN Asked(Content(Reading(st, h, "draft", Key("draft", <<e.u, e.fn>>)))) ELSE No
       [] e.q = "deldraft" -> Change(st, h, "d", "deldraft", Key("draft", <<e.u, e.fn>>), <<>>)
       [] e.q = "writedraft" -> Change(st, h, "d", "writedraft", Key("draft", <<e.u, e.fn>>), <<e.c>>)
       [] e.q = "newboard" ->
            IF ~Can(st, h, "b") THEN No
            ELSE Did(FailOf(st, h, "newboard") = "", e.title \o Who(st, h), << <<"newboard", who, e.b, e.title>> >>)
       [] e.q = "addboard" -> Change(st, h, "b", "addboard", Key("boards", <<>>), <<e.b, e.title>>)
       [] e.q \in {"updboard", "getboard", "rmboard"} -> No            \* not implemented
       [] e.q = "newart" ->
            IF ~Can(st, h, "a") THEN No
            ELSE LET named == <<"fname", who, e.b>>
                     fn == "M." \o e.b
                 IN IF FailOf(st, h, "fname") # "" THEN Did(FALSE, <<>>, <<named>>)
                    ELSE Did(FailOf(st, h, "newart") = "", [fn |-> fn, title |-> e.title \o Who(st, h)],
                             <<named, <<"newart", who, fn, e.u, e.date, e.title>> >>)
       [] e.q = "addart" -> Change(st, h, "a", "addart", Key("arts", <<e.b>>), <<e.fn, e.title>>)
       [] e.q = "write" -> Change(st, h, "a", "write", Key("file", <<e.b, e.fn>>), <<e.c>>)
       [] e.q = "append" -> Change(st, h, "a", "append", Key("file", <<e.b, e.fn>>), <<e.c>>)

\* where there is no answer, that is said and nothing is handed out
Answer(st, e) == LET x == Ask(st, e) IN IF x.ok THEN x ELSE [x EXCEPT !.v = <<>>]

\* registering and opening
Register(st, e) == [st EXCEPT !.names = Put(@, e.n, e.d),
                              !.drvs = Put(@, e.d, [caps |-> SeqSet(e.cs), data |-> e.data, fail |-> e.fail, src |-> ""])]
OpenOK(st, e) == IF e.n \notin DOMAIN st.names THEN FALSE
                 ELSE LET f == st.drvs[st.names[e.n]].fail IN Key("Open", <<e.src>>) \notin DOMAIN f
OpenIn(st, e) ==
  IF ~OpenOK(st, e) THEN st
  ELSE LET d == st.names[e.n]
           own == "n" \in st.drvs[d].caps
       IN [st EXCEPT !.dbs = Put(@, e.h, [d |-> d, src |-> e.src]),
                     !.drvs = [@ EXCEPT ![d].src = IF own THEN @ ELSE e.src]]
=============================================================================
