-------------------------------- MODULE Cli --------------------------------
(* The command line tool: what each subcommand does to a home, and what it prints.
   An event e is one run: e.home the home, e.a the subcommand and its arguments, e.out what was printed
   (after the lines in which the tool repeats its arguments: e.hdr = 1), e.code the exit status. *)
EXTENDS BBS

IsOption(h) == IF Len(h) < 4 THEN FALSE ELSE SubSeq(h, 1, 4) = "2d2d"
\* options with their values; the last of a name counts; other words mean nothing
RECURSIVE CliArgs(_)
CliArgs(a) ==
  IF a = <<>> THEN [m |-> Empty, dangling |-> FALSE]
  ELSE IF ~IsOption(Head(a)) THEN CliArgs(Tail(a))
  ELSE IF Len(a) = 1 THEN [m |-> Empty, dangling |-> TRUE]
  ELSE LET z == CliArgs(SubSeq(a, 3, Len(a)))
       IN [z EXCEPT !.m = @ @@ (SubSeq(a[1], 5, Len(a[1])) :> a[2])]

KeyBoard == TLCEval(StrHex("board"))      KeyUser == TLCEval(StrHex("user_id"))
KeyOwner == TLCEval(StrHex("owner"))      KeyDate == TLCEval(StrHex("date"))
KeyTitle == TLCEval(StrHex("title"))      KeyContent == TLCEval(StrHex("content"))
KeyFile == TLCEval(StrHex("filename"))    KeyCFile == TLCEval(StrHex("content_file"))
KeyBoardID == TLCEval(StrHex("board_id"))
ReadSubs == TLCEval([x \in {StrHex(y) : y \in {"show_board_list", "show_user_list", "show_user_article_list", "show_user_comment_list",
                                                "show_board_article_list", "show_board_article"}} |-> HStr(x)])
SubAddBoard == TLCEval(StrHex("add_board"))
SubAddArticle == TLCEval(StrHex("add_board_article"))

RECURSIVE Cat(_)
Cat(hs) == IF hs = <<>> THEN "" ELSE Head(hs) \o Cat(Tail(hs))
RECURSIVE Blanks(_)
Blanks(n) == IF n <= 0 THEN "" ELSE "20" \o Blanks(n - 1)
Right(h, n) == Blanks(n - HLen(h)) \o h
TwoDigits(n) == StrHex((IF n < 10 THEN "0" ELSE "") \o ToString(n))

BoardLine(x) == StrHex("title: ") \o x.title \o "0a"
UserLine(x) == StrHex("user id: ") \o x.userid \o "0a"
UserArticleLine(x) == StrHex("titlex: ") \o x.title \o "0a"
CommentLine(x) == StrHex("user comment record: order: ") \o StrHex(x.n) \o StrHex(", owner: ") \o x.own \o StrHex(", time: ")
                  \o TwoDigits(x.t[1]) \o "2f" \o TwoDigits(x.t[2]) \o "20" \o TwoDigits(x.t[3]) \o "3a" \o TwoDigits(x.t[4]) \o "0a"
ArticleLine(x) == x.fn \o "20" \o Right(x.own, 12) \o "20" \o x.date \o "20" \o x.title \o "0a"

AllOf(v, L(_)) == Cat([i \in DOMAIN v |-> L(v[i])])
OnHome(st, H) == [st EXCEPT !.hd = Put(@, 99, H)]
\* what is printed for one outcome of an operation
Printed(os, F(_)) == {IF o.r = "ok" THEN [r |-> "ok", out |-> F(o.obs)] ELSE [r |-> "err", out |-> ""] : o \in os}
Refused == {[r |-> "err", out |-> ""]}

CliViews(st, H, name, m) ==
  LET s == OnHome(st, H)
      do(c) == Outcomes(s, c @@ [h |-> 99])
  IN CASE name = "show_board_list" -> Printed(do([op |-> "boards"]), LAMBDA o : AllOf(o.v, BoardLine))
       [] name = "show_user_list" -> Printed(do([op |-> "users"]), LAMBDA o : AllOf(SelectSeq(o.v, LAMBDA x : x.userid # ""), UserLine))
       [] name = "show_user_article_list" ->
            IF KeyUser \notin DOMAIN m THEN Refused
            ELSE Printed(do([op |-> "uarts", u |-> m[KeyUser]]), LAMBDA o : AllOf(o.v, UserArticleLine))
       [] name = "show_user_comment_list" ->
            IF KeyUser \notin DOMAIN m THEN Refused
            ELSE Printed(do([op |-> "ucomments", u |-> m[KeyUser]]), LAMBDA o : AllOf(o.v, CommentLine))
       [] name = "show_board_article_list" ->
            IF KeyBoard \notin DOMAIN m THEN Refused
            ELSE Printed(do([op |-> "list", b |-> HStr(m[KeyBoard])]), LAMBDA o : AllOf(SelectSeq(o.v, LAMBDA x : x.fn # ""), ArticleLine))
       [] name = "show_board_article" ->
            IF KeyBoard \notin DOMAIN m \/ KeyFile \notin DOMAIN m THEN Refused
            ELSE Printed(do([op |-> "read", b |-> HStr(m[KeyBoard]), f |-> HStr(m[KeyFile])]),
                         LAMBDA o : StrHex("filecontent: ") \o "0a" \o o.c \o "0a")

EndsIn(h, x) == Len(h) >= Len(x) /\ SubSeq(h, Len(h) - Len(x) + 1, Len(h)) = x
\* the tool says why it does not do it
Says(e) == e.out # "" /\ e.code \in {0, 1}
OutputIs(e, x, dangling) == /\ e.code = 0
                            /\ IF e.hdr = 1 /\ ~dangling THEN e.out = x ELSE EndsIn(e.out, x)

NewLine == TLCEval(StrHex("new filename: "))
\* the name that is reported: the last line
NameIn(h) ==
  LET starts == {i \in 1..HLen(h) : IF i + HLen(NewLine) > HLen(h) THEN FALSE
                                    ELSE HSub(h, i, i + HLen(NewLine) - 1) = NewLine /\ (i = 1 \/ HByte(h, i - 1) = "0a")}
  IN IF starts = {} \/ HByte(h, HLen(h)) # "0a" THEN ""
     ELSE HSub(h, (CHOOSE i \in starts : \A j \in starts : j <= i) + HLen(NewLine), HLen(h) - 1)

AddedArticle(st, e, m) ==
  LET H == e.home
      b == HStr(m[KeyBoard])
      dir == BoardDir(H, b)
      content == IF KeyContent \in DOMAIN m THEN m[KeyContent] ELSE st.vals[HStr(m[KeyCFile])]
      fnx == NameIn(e.out)
      fn == HStr(fnx)
      at(t) == [Fresh(fnx, m[KeyOwner], m[KeyDate], m[KeyTitle]) EXCEPT !.mod = t]
  IN IF b = "" THEN (IF Says(e) THEN {st} ELSE {})
     ELSE IF dir \notin st.dirs \/ Blocked(st, ListPath(H, b)) THEN (IF Says(e) THEN {st} ELSE {})
     ELSE IF e.code # 0 \/ fnx = "" THEN {}
     ELSE IF ~GoodName(fn, SeqSet(e.secs)) \/ Taken(st, ArtPath(H, b, fn)) THEN {}
     ELSE {[AddTo(st, dir, ListPath(H, b), at(t)).st EXCEPT !.texts = Put(@, ArtPath(H, b, fn), content)] : t \in SeqSet(e.secs) \cup {ZeroTime}}

CliStates(st, e) ==
  LET refuse == IF Says(e) THEN {st} ELSE {}
      p == CliArgs(Tail(e.a))
      m == p.m
      sub == e.a[1]
  IN IF Len(e.a) = 0 THEN refuse
     ELSE IF e.home \notin st.dirs \/ ("driver" \in DOMAIN e /\ e.driver # "pttbbs") THEN refuse
     ELSE IF sub \in DOMAIN ReadSubs
     THEN IF \E o \in CliViews(st, e.home, ReadSubs[sub], m) : IF o.r = "ok" THEN OutputIs(e, o.out, p.dangling) ELSE Says(e) THEN {st}
          ELSE IF p.dangling THEN refuse ELSE {}
     ELSE IF sub = SubAddBoard
     THEN IF KeyBoardID \notin DOMAIN m \/ KeyTitle \notin DOMAIN m THEN refuse
          ELSE {o.st : o \in {x \in Outcomes(OnHome(st, e.home), [op |-> "addboard", h |-> 99, rec |-> [id |-> m[KeyBoardID], title |-> m[KeyTitle]]]) :
                                IF x.r = "ok" THEN e.code = 0 ELSE Says(e)}}
               \cup (IF p.dangling THEN refuse ELSE {})
     ELSE IF sub = SubAddArticle
     THEN IF {KeyBoard, KeyOwner, KeyDate, KeyTitle} \ DOMAIN m # {} \/ (KeyContent \notin DOMAIN m /\ KeyCFile \notin DOMAIN m) THEN refuse
          ELSE IF KeyContent \notin DOMAIN m /\ HStr(m[KeyCFile]) \notin DOMAIN st.vals THEN refuse
          ELSE AddedArticle(st, e, m) \cup (IF p.dangling THEN refuse ELSE {})
     ELSE refuse

\* several runs at once have the effect of one after the other
RECURSIVE CliMany(_, _)
CliMany(ss, es) ==
  IF es = {} \/ ss = {} THEN ss
  ELSE UNION {CliMany(UNION {CliStates(s, e) : s \in ss}, es \ {e}) : e \in es}

CliWrites(st, e) ==
  LET m == CliArgs(Tail(e.a)).m
  IN IF Len(e.a) = 0 THEN {}
     ELSE IF e.a[1] = SubAddBoard THEN {BrdPath(e.home)}
     ELSE IF e.a[1] = SubAddArticle /\ KeyBoard \in DOMAIN m /\ NameIn(e.out) # ""
     THEN LET b == HStr(m[KeyBoard]) IN IF b = "" THEN {} ELSE {ListPath(e.home, b), ArtPath(e.home, b, HStr(NameIn(e.out)))}
     ELSE {}
=============================================================================
