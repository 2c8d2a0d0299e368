-------------------------------- MODULE BBS --------------------------------
(* The state of BBS homes and the meaning of every operation on them.

   State (one record):
     dirs    set of directories
     odd     paths at which something is that can neither be read nor written as a file
     lists   path -> sequence of article entries     (boards/<x>/<board>/.DIR, man/boards/...)
     brds    path -> sequence of boards              (.BRD)
     texts   path -> bytes                           (articles, drafts)
     vals    path -> value                           (files which are only read: .fav, .PASSWDS, logins)
     hd      handle -> home directory it was opened on
     full    prefixes of article names that are all taken, except for some endings
     vars    name -> article record held by the caller
     torn    lists with a part of an entry at the end: a reader of one may refuse it
     dev     which known deviation of the implementation has been seen ("": none), see BBSTrace

   Outcomes(st, c) is the set of what call c may do in state st: the new state, the reported
   result ("ok" or "err") and the values returned.  All names of files are computed here, from the
   directory convention of the BBS; nothing is taken from the implementation. *)
EXTENDS Comments, Layout

InitState == [dirs |-> {}, odd |-> {}, lists |-> Empty, brds |-> Empty, texts |-> Empty,
              vals |-> Empty, hd |-> Empty, vars |-> Empty, full |-> Empty, dev |-> "", torn |-> {}]

-----------------------------------------------------------------------------
(* Directory convention *)
First(s) == SubSeq(s, 1, 1)
BoardDir(H, b) == H \o "/boards/" \o First(b) \o "/" \o b
ListPath(H, b) == BoardDir(H, b) \o "/.DIR"
ArtPath(H, b, f) == BoardDir(H, b) \o "/" \o f
RECURSIVE JoinT(_)
JoinT(t) == IF t = <<>> THEN "" ELSE "/" \o Head(t) \o JoinT(Tail(t))
TreaDir(H, b, t) == H \o "/man/boards/" \o First(b) \o "/" \o b \o JoinT(t)
UserDir(H, u) == H \o "/home/" \o First(u) \o "/" \o u
DraftPath(H, u, d) == UserDir(H, u) \o "/buf." \o d
FavPath(H, u) == UserDir(H, u) \o "/.fav"
BrdPath(H) == H \o "/.BRD"
PwPath(H) == H \o "/.PASSWDS"

Files(st) == DOMAIN st.lists \cup DOMAIN st.brds \cup DOMAIN st.texts \cup DOMAIN st.vals
Blocked(st, p) == p \in st.dirs \/ p \in st.odd
Taken(st, p) == \/ p \in Files(st) \/ Blocked(st, p)
                \/ \E x \in DOMAIN st.full : Len(p) = Len(x) + 3 /\ SubSeq(p, 1, Len(x)) = x
                                            /\ SubSeq(p, Len(x) + 1, Len(p)) \notin st.full[x]

-----------------------------------------------------------------------------
(* Article entries.  A stored entry is what a reader gets back from the fixed-width record. *)
Bit(m, b) == (m \div b) % 2 = 1
IsVote(m) == Bit(m, 64)
IsAnon(m) == Bit(m, 128)
ZeroTime == "-62135596800"     \* a time that was never set
Int8(v) == ((v + 128) % 256) - 128

StoredUnion(e) == IF IsVote(e.mode) THEN <<e.vl[3] + 256 * e.vl[4], e.vl[1] + 256 * e.vl[2]>>
                  ELSE IF IsAnon(e.mode) THEN e.anno ELSE e.mon
Stored(e) ==
  LET un == StoredUnion(e)
  IN [fn |-> CStr(e.fn, 28), own |-> CStr(e.own, 14), date |-> CStr(e.date, 6), title |-> CStr(e.title, 65),
      mod |-> IF e.mod = ZeroTime THEN "0" ELSE e.mod,
      rec |-> e.rec, mode |-> e.mode, mon |-> un, anno |-> un,
      vote |-> IF IsVote(e.mode) THEN 1 ELSE 0,
      vl |-> IF IsVote(e.mode)
             THEN <<un[2] % 256, un[2] \div 256, un[1] % 256, un[1] \div 256>>
             ELSE <<0, 0, 0, 0>>]

Fresh(fn, own, date, title) ==
  [fn |-> fn, own |-> own, date |-> date, title |-> title, mod |-> ZeroTime, rec |-> 0, mode |-> 0,
   mon |-> <<0, 0>>, anno |-> <<0, 0>>, vl |-> <<0, 0, 0, 0>>, vote |-> 0]

\* the caller's changes to an entry
Edit(e, d) ==
  LET g(k, v) == IF k \in DOMAIN d THEN d[k] ELSE v
      m == g("mode", e.mode)
  IN [fn |-> g("fn", e.fn), own |-> g("own", e.own), date |-> g("date", e.date), title |-> g("title", e.title),
      mod |-> g("setmod", e.mod), rec |-> Int8(e.rec + g("addrec", 0)), mode |-> m,
      mon |-> e.mon, anno |-> g("anno", e.anno), vl |-> g("vl", e.vl), vote |-> IF IsVote(m) THEN 1 ELSE 0]
NewEntry(r) == Edit(Fresh(r.fn, r.own, r.date, r.title), r)

(* Boards *)
GidDefault == "0"
StoredBoard(r) ==
  LET attr == IF "attr" \in DOMAIN r THEN r.attr ELSE <<0, 0>>
      gid == IF "gid" \in DOMAIN r THEN r.gid ELSE GidDefault
  IN [id |-> CStr(r.id, 13), title |-> CStr(r.title, 49), bm |-> <<>>, attr |-> attr, gid |-> gid,
      cid |-> gid, lvl |-> IF "lvl" \in DOMAIN r THEN r.lvl ELSE <<0, 0>>,
      cls |-> IF Bit(attr[2], 8) THEN 1 ELSE 0]

-----------------------------------------------------------------------------
\* the content of a text whose replacement was interrupted
Unknown == "?"
NoObs == [x \in {} |-> 0]
Ok(st, obs) == [st |-> st, r |-> "ok", obs |-> obs]
Err(st) == [st |-> st, r |-> "err", obs |-> NoObs]

GetList(st, p) == Get(st.lists, p, <<>>)
GetBrd(st, p) == Get(st.brds, p, <<>>)

\* appending to a file at p, which is created if its directory is there
CanAppend(st, dir, p) == dir \in st.dirs /\ ~Blocked(st, p)

AddTo(st, dir, p, e) ==
  IF CanAppend(st, dir, p)
  THEN Ok([st EXCEPT !.lists = Put(@, p, Append(GetList(st, p), Stored(e)))], NoObs)
  ELSE Err(st)

\* reading the list of a board: a board without a list has an empty one
ListOf(st, H, b) ==
  IF b = "" THEN {Err(st)}
  ELSE LET p == ListPath(H, b)
       IN IF Blocked(st, p) THEN {Err(st)}
          ELSE IF p \in st.torn THEN {Ok(st, [v |-> st.lists[p]]), Err(st)}
          ELSE IF p \in DOMAIN st.lists THEN {Ok(st, [v |-> st.lists[p]])}
          ELSE IF BoardDir(H, b) \in st.dirs THEN {Ok(st, [v |-> <<>>])}
          ELSE {Ok(st, [v |-> <<>>]), Err(st)}

\* a reader of one file; absent means it is not there
ReadText(st, p, absent) ==
  IF Blocked(st, p) THEN {Err(st)}
  ELSE IF p \in DOMAIN st.texts THEN {Ok(st, [c |-> st.texts[p]])}
  ELSE absent

\* names of new articles: M.<seconds>.A.<three hexadecimal digits>
NameChars == {SubSeq("0123456789ABCDEFabcdef", i, i) : i \in 1..22}
GoodName(n, secs) ==
  /\ Len(n) > 8 /\ SubSeq(n, 1, 2) = "M."
  /\ SubSeq(n, Len(n) - 5, Len(n) - 3) = ".A."
  /\ \A i \in (Len(n) - 2)..Len(n) : SubSeq(n, i, i) \in NameChars
  /\ SubSeq(n, 3, Len(n) - 6) \in secs

\* what every kind of BBS tells about the accounts
AccountFields == {"userid", "password", "nickname", "realname", "logindays", "posts", "money", "lastlogin", "lasthost", "userflag"}
UsersView(us) == [i \in DOMAIN us |-> [f \in AccountFields |-> us[i][f]]]

-----------------------------------------------------------------------------
(* Comments of one article, see Comments.tla *)
ArtComments(st, H, b, fhex) ==       \* set of [r, v]
  LET p == ArtPath(H, b, HStr(fhex))
  IN IF b = "" \/ fhex = "" \/ p \notin DOMAIN st.texts THEN {[r |-> "err", v |-> <<>>]}
     ELSE LET k == Comments(st.texts[p])
              v(u) == [i \in DOMAIN k.cs |-> [n |-> k.cs[i].n, own |-> k.cs[i].own, t |-> k.cs[i].t,
                                              txt |-> IF u THEN k.cs[i].utxt ELSE k.cs[i].txt, b |-> b, fn |-> fhex]]
          IN (IF k.ok THEN {[r |-> "ok", v |-> v(u)] : u \in BOOLEAN} ELSE {}) \cup
             (IF ~k.ok \/ k.long THEN {[r |-> "err", v |-> <<>>]} ELSE {})

RECURSIVE CommentsFrom(_, _, _, _, _)
CommentsFrom(st, H, b, u, es) ==      \* set of [r, v]: comments by u on the articles es of board b
  IF es = <<>> THEN {[r |-> "ok", v |-> <<>>]}
  ELSE UNION {IF a.r = "err" THEN {a}
              ELSE {IF z.r = "err" THEN z
                    ELSE [r |-> "ok", v |-> SelectSeq(a.v, LAMBDA x : x.own = u) \o z.v]
                      : z \in CommentsFrom(st, H, b, u, Tail(es))}
                : a \in ArtComments(st, H, b, Head(es).fn)}

BoardComments(st, H, b, u) ==
  UNION {IF l.r = "err" THEN {[r |-> "err", v |-> <<>>]} ELSE CommentsFrom(st, H, b, u, l.obs.v)
           : l \in ListOf(st, H, b)}

Listed(bs) == SelectSeq(bs, LAMBDA x : x.id # "" /\ x.id # StrHex("ALLPOST"))

RECURSIVE AllComments(_, _, _, _)
AllComments(st, H, u, bs) ==
  IF bs = <<>> THEN {[r |-> "ok", v |-> <<>>]}
  ELSE UNION {IF a.r = "err" THEN {a}
              ELSE {IF z.r = "err" THEN z ELSE [r |-> "ok", v |-> a.v \o z.v]
                      : z \in AllComments(st, H, u, Tail(bs))}
                : a \in BoardComments(st, H, HStr(Head(bs).id), u)}

RECURSIVE AllArticles(_, _, _, _)
AllArticles(st, H, u, bs) ==
  IF bs = <<>> THEN {[r |-> "ok", v |-> <<>>]}
  ELSE LET b == HStr(Head(bs).id)
       IN UNION {IF l.r = "err" THEN {[r |-> "err", v |-> <<>>]}
                 ELSE {IF z.r = "err" THEN z
                       ELSE [r |-> "ok",
                             v |-> LET mine == SelectSeq(l.obs.v, LAMBDA e : e.own = u)
                                   IN [i \in DOMAIN mine |-> [b |-> b, title |-> mine[i].title,
                                                              own |-> u, fn |-> mine[i].fn]] \o z.v]
                         : z \in AllArticles(st, H, u, Tail(bs))}
                   : l \in ListOf(st, H, b)}

OverBoards(st, H, F(_)) ==
  LET p == BrdPath(H)
  IN IF Blocked(st, p) THEN {Err(st)}
     ELSE {IF z.r = "ok" THEN Ok(st, [v |-> z.v]) ELSE Err(st) : z \in F(Listed(GetBrd(st, p)))}
          \cup (IF p \in DOMAIN st.brds THEN {} ELSE {Err(st)})

-----------------------------------------------------------------------------
(* Path arguments of the setting-up operations carry all ancestor directories in c.anc *)
Home(st, c) == st.hd[c.h]

Outcomes(st, c) ==
  CASE c.op = "mkdir" -> {Ok([st EXCEPT !.dirs = @ \cup SeqSet(c.anc)], NoObs)}
    [] c.op = "put" ->
         LET s1 == [st EXCEPT !.dirs = @ \cup SeqSet(c.anc)]
         IN {Ok(CASE c.kind = "text" -> [s1 EXCEPT !.texts = Put(@, c.path, c.c)]
                  [] c.kind = "list" -> [s1 EXCEPT !.lists = Put(@, c.path, c.v)]
                  [] c.kind = "brd" -> [s1 EXCEPT !.brds = Put(@, c.path, c.v)]
                  [] c.kind = "val" -> [s1 EXCEPT !.vals = Put(@, c.path, c.c)], NoObs)}
    [] c.op = "symlink" -> {Ok([st EXCEPT !.dirs = @ \cup SeqSet(c.anc), !.odd = @ \cup {c.path}], NoObs)}
    [] c.op = "open" -> {Ok([st EXCEPT !.hd = Put(@, c.h, c.home)], NoObs)}
    [] c.op = "openbad" -> {Err(st)}
    [] c.op = "fill" -> {Ok([st EXCEPT !.full = [x \in SeqSet(c.list) |-> SeqSet(c.free)] @@ @], NoObs)}
    [] c.op = "checkfill" -> {Ok(st, [bad |-> 0])}

    \* articles: list
    [] c.op = "add" ->
         IF c.b = "" THEN {Err(st)}
         ELSE LET H == Home(st, c) IN {AddTo(st, BoardDir(H, c.b), ListPath(H, c.b), NewEntry(c.rec))}
    [] c.op = "addvar" ->
         LET H == Home(st, c) IN {AddTo(st, BoardDir(H, c.b), ListPath(H, c.b), st.vars[c.var])}
    [] c.op = "addcopy" ->
         LET H == Home(st, c)
         IN {AddTo(st, BoardDir(H, c.b), ListPath(H, c.b), st.lists[ListPath(H, c.b2)][c.i + 1])}
    [] c.op = "list" -> ListOf(st, Home(st, c), c.b)
    [] c.op = "upd" ->
         LET H == Home(st, c)
             p == ListPath(H, c.b)
             l == GetList(st, p)
             e == IF "from" \in DOMAIN c THEN Edit(l[c.from + 1], c.rec) ELSE NewEntry(c.rec)
         IN IF p \in DOMAIN st.lists /\ c.ix < Len(l)
            THEN {Ok([st EXCEPT !.lists = Put(@, p, [l EXCEPT ![c.ix + 1] = Stored(e)])], NoObs)}
            ELSE {Err(st)}

    \* articles: names and contents
    [] c.op = "create" ->
         IF c.b = "" \/ BoardDir(Home(st, c), c.b) \notin st.dirs THEN {Err(st)}
         ELSE LET H == Home(st, c)
                  n == HStr(c.fn)
                  p == ArtPath(H, c.b, n)
                  s1 == [st EXCEPT !.texts = Put(@, p, c.c)]
              IN IF ~GoodName(n, SeqSet(c.secs)) \/ Taken(st, p) THEN {}
                 ELSE IF c.via = "name" THEN (IF c.c = "" THEN {Ok(s1, NoObs)} ELSE {})
                 ELSE IF "e" \notin DOMAIN c THEN {}
                 ELSE IF /\ c.e = [Fresh(c.fn, c.own, c.date, c.title) EXCEPT !.mod = c.e.mod]
                         /\ (c.via = "db" => c.c = "")
                      THEN {Ok(IF "var" \in DOMAIN c THEN [s1 EXCEPT !.vars = Put(@, c.var, c.e)] ELSE s1, NoObs)}
                      ELSE {}
    [] c.op = "write" ->
         LET H == Home(st, c)
             p == ArtPath(H, c.b, c.f)
         IN IF c.b # "" /\ BoardDir(H, c.b) \in st.dirs /\ ~Blocked(st, p)
            THEN {Ok([st EXCEPT !.texts = Put(@, p, c.c)], NoObs)} ELSE {Err(st)}
    [] c.op = "append" ->
         LET p == IF c.b = "" THEN "" ELSE ArtPath(Home(st, c), c.b, c.f)
         IN IF p \in DOMAIN st.texts
            THEN {Ok([st EXCEPT !.texts = Put(@, p, IF st.texts[p] = Unknown THEN Unknown ELSE st.texts[p] \o c.c)], NoObs)}
            ELSE {Err(st)}
    [] c.op = "read" ->
         IF c.b = "" THEN {Err(st)} ELSE ReadText(st, ArtPath(Home(st, c), c.b, c.f), {Err(st)})

    \* treasures (read only)
    [] c.op = "tlist" ->
         IF c.b = "" THEN {Err(st)}
         ELSE LET p == TreaDir(Home(st, c), c.b, c.t) \o "/.DIR"
              IN IF p \in DOMAIN st.lists THEN {Ok(st, [v |-> st.lists[p]])}
                 ELSE IF Blocked(st, p) THEN {Err(st)}
                 ELSE {Err(st), Ok(st, [v |-> <<>>])}
    [] c.op = "tread" ->
         IF c.b = "" THEN {Err(st)}
         ELSE ReadText(st, TreaDir(Home(st, c), c.b, c.t) \o "/" \o c.f, {Err(st)})

    \* drafts
    [] c.op = "wdraft" ->
         LET H == Home(st, c)
         IN IF c.u # "" /\ UserDir(H, c.u) \in st.dirs /\ ~Blocked(st, DraftPath(H, c.u, c.d))
            THEN {Ok([st EXCEPT !.texts = Put(@, DraftPath(H, c.u, c.d), c.c)], NoObs)} ELSE {Err(st)}
    [] c.op = "rdraft" ->
         IF c.u = "" THEN {Err(st)} ELSE ReadText(st, DraftPath(Home(st, c), c.u, c.d), {Ok(st, [c |-> ""])})
    [] c.op = "ddraft" ->
         LET p == IF c.u = "" THEN "" ELSE DraftPath(Home(st, c), c.u, c.d)
         IN IF p \in DOMAIN st.texts THEN {Ok([st EXCEPT !.texts = Drop(@, p)], NoObs)}
            ELSE IF Blocked(st, p)
                 THEN {Err(st), Ok([st EXCEPT !.odd = @ \ {p}, !.dirs = @ \ {p}], NoObs)}
            ELSE {Err(st)}

    \* boards
    [] c.op = "boards" ->
         LET p == BrdPath(Home(st, c))
         IN IF Blocked(st, p) THEN {Err(st)}
            ELSE IF p \in st.torn THEN {Ok(st, [v |-> st.brds[p]]), Err(st)}
            ELSE IF p \in DOMAIN st.brds THEN {Ok(st, [v |-> st.brds[p]])}
            ELSE {Err(st), Ok(st, [v |-> <<>>])}
    [] c.op = "addboard" ->
         LET p == BrdPath(Home(st, c))
             n == Ok([st EXCEPT !.brds = Put(@, p, Append(GetBrd(st, p), StoredBoard(c.rec)))], NoObs)
         IN IF Blocked(st, p) \/ Home(st, c) \notin st.dirs THEN {Err(st)}
            ELSE IF p \in DOMAIN st.brds THEN {n} ELSE {n, Err(st)}
    [] c.op = "rmboard" ->
         LET p == BrdPath(Home(st, c))
             l == GetBrd(st, p)
         IN IF p \in DOMAIN st.brds /\ c.ix >= 0 /\ c.ix < Len(l)
            THEN {Ok([st EXCEPT !.brds = Put(@, p, RemoveIdx(l, c.ix + 1))], NoObs)} ELSE {Err(st)}

    \* listings over articles and boards
    [] c.op = "comments" ->
         {IF z.r = "ok" THEN Ok(st, [v |-> z.v]) ELSE Err(st)
            : z \in ArtComments(st, Home(st, c), c.b, c.fhex)}
    [] c.op = "bcomments" ->
         {IF z.r = "ok" THEN Ok(st, [v |-> z.v]) ELSE Err(st)
            : z \in BoardComments(st, Home(st, c), c.b, c.u)}
    [] c.op = "ucomments" ->
         LET H == Home(st, c) IN OverBoards(st, H, LAMBDA bs : AllComments(st, H, c.u, bs))
    [] c.op = "uarts" ->
         LET H == Home(st, c) IN OverBoards(st, H, LAMBDA bs : AllArticles(st, H, c.u, bs))

    \* files which are only read: their value is that of the file (see Fav, LoginLog, Layout)
    [] c.op = "fav" ->
         IF c.u = "" THEN {Err(st)}
         ELSE LET p == FavPath(Home(st, c), c.u)
                  bp == BrdPath(Home(st, c))
              IN IF Blocked(st, p) THEN {Err(st)}
                 ELSE IF p \notin DOMAIN st.vals THEN {Ok(st, [v |-> <<>>])}
                 ELSE LET f == FavParse(st.vals[p])
                      IN IF ~f.ok \/ Blocked(st, bp) THEN {Err(st)}
                         ELSE {Ok(st, [v |-> FavView(f.v.items, GetBrd(st, bp))])} \cup
                              (IF bp \in DOMAIN st.brds THEN {} ELSE {Err(st)})
    [] c.op = "users" ->
         LET p == PwPath(Home(st, c))
         IN IF Blocked(st, p) THEN {Err(st)}
            ELSE IF p \notin DOMAIN st.vals THEN {Err(st), Ok(st, [v |-> <<>>])}
            ELSE {IF x.r = "ok" THEN Ok(st, [v |-> UsersView(x.v)]) ELSE Err(st) : x \in ReadAll("user", st.vals[p])}

-----------------------------------------------------------------------------
(* Which files an operation may read and write: those of its own board, user, slot or directory *)
ReadsOf(st, c) ==
  CASE c.op \in {"list", "upd", "add", "addvar"} /\ c.b # "" -> {ListPath(Home(st, c), c.b)}
    [] c.op = "addcopy" -> {ListPath(Home(st, c), c.b), ListPath(Home(st, c), c.b2)}
    [] c.op \in {"read", "write", "append"} /\ c.b # "" -> {ArtPath(Home(st, c), c.b, c.f)}
    [] c.op = "tlist" /\ c.b # "" -> {TreaDir(Home(st, c), c.b, c.t) \o "/.DIR"}
    [] c.op = "tread" /\ c.b # "" -> {TreaDir(Home(st, c), c.b, c.t) \o "/" \o c.f}
    [] c.op \in {"wdraft", "rdraft", "ddraft"} /\ c.u # "" -> {DraftPath(Home(st, c), c.u, c.d)}
    [] c.op \in {"boards", "addboard", "rmboard"} -> {BrdPath(Home(st, c))}
    [] c.op = "comments" /\ c.b # "" -> {ArtPath(Home(st, c), c.b, HStr(c.fhex))}
    [] c.op = "bcomments" /\ c.b # "" ->
         {ListPath(Home(st, c), c.b)} \cup
         {ArtPath(Home(st, c), c.b, HStr(e.fn)) : e \in SeqSet(GetList(st, ListPath(Home(st, c), c.b)))}
    [] c.op \in {"ucomments", "uarts"} ->
         LET H == Home(st, c)
             bs == {HStr(x.id) : x \in SeqSet(Listed(GetBrd(st, BrdPath(H))))}
         IN {BrdPath(H)} \cup {ListPath(H, b) : b \in bs} \cup
            (IF c.op = "uarts" THEN {}
             ELSE UNION {{ArtPath(H, b, HStr(e.fn)) : e \in SeqSet(GetList(st, ListPath(H, b)))} : b \in bs})
    [] c.op = "fav" /\ c.u # "" -> {FavPath(Home(st, c), c.u), BrdPath(Home(st, c))}
    [] c.op = "users" -> {PwPath(Home(st, c))}
    [] OTHER -> {}

WritesOf(st, c) ==
  CASE c.op \in {"add", "addvar", "addcopy", "upd"} /\ c.b # "" -> {ListPath(Home(st, c), c.b)}
    [] c.op \in {"write", "append"} /\ c.b # "" -> {ArtPath(Home(st, c), c.b, c.f)}
    [] c.op = "create" /\ c.b # "" /\ c.fn # "" -> {ArtPath(Home(st, c), c.b, HStr(c.fn))}
    [] c.op \in {"wdraft", "ddraft"} /\ c.u # "" -> {DraftPath(Home(st, c), c.u, c.d)}
    [] c.op \in {"addboard", "rmboard"} -> {BrdPath(Home(st, c))}
    [] OTHER -> {}

IsSetup(c) == c.op \in {"mkdir", "put", "symlink", "open", "openbad", "fill", "checkfill"}

\* what was observed of the file system during call c: chg - files that differ afterwards,
\* rd / wr - files that were opened for reading / for writing
StaysInside(st, c) ==
  LET w == WritesOf(st, c)
      r == ReadsOf(st, c) \cup w
  IN IF IsSetup(c) THEN TRUE ELSE
     /\ SeqSet(c.chg) \subseteq w \cup {p \o "/" : p \in w}
     /\ SeqSet(c.wr) \cap Files(st) \subseteq w
     /\ SeqSet(c.rd) \cap Files(st) \subseteq r

-----------------------------------------------------------------------------
(* An operation that was interrupted (crash) or reported a failed system call: it has happened
   completely or not at all - except that the content of the text being replaced is then unknown,
   and that a board being removed may leave later boards twice. *)
Interrupted(st, c) ==
  {st} \cup
  (IF c.op = "create"
   THEN \* a name may have been reserved
        LET p == ArtPath(Home(st, c), c.b, HStr(c.fn))
        IN IF c.b # "" /\ c.fn # "" /\ ~Taken(st, p)
           THEN {[st EXCEPT !.texts = Put(@, p, Unknown)]} ELSE {}
   ELSE {o.st : o \in {x \in Outcomes(st, c) : x.r = "ok"}}) \cup
  (IF c.op = "write" /\ c.b # "" /\ BoardDir(Home(st, c), c.b) \in st.dirs /\ ~Blocked(st, ArtPath(Home(st, c), c.b, c.f))
     THEN {[st EXCEPT !.texts = Put(@, ArtPath(Home(st, c), c.b, c.f), Unknown)]} ELSE {}) \cup
  (IF c.op = "wdraft" /\ c.u # "" /\ UserDir(Home(st, c), c.u) \in st.dirs /\ ~Blocked(st, DraftPath(Home(st, c), c.u, c.d))
     THEN {[st EXCEPT !.texts = Put(@, DraftPath(Home(st, c), c.u, c.d), Unknown)]} ELSE {}) \cup
  (IF c.op = "rmboard" /\ BrdPath(Home(st, c)) \in DOMAIN st.brds
     THEN LET p == BrdPath(Home(st, c))
              l == st.brds[p]
          IN IF c.ix < 0 \/ c.ix >= Len(l) THEN {}
             ELSE LET m == RemoveIdx(l, c.ix + 1)
                  IN {[st EXCEPT !.brds = Put(@, p, SubSeq(m, 1, k) \o SubSeq(l, k + 1, Len(l)))] : k \in c.ix..Len(m)}
     ELSE {})
=============================================================================
