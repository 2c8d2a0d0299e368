------------------------------- MODULE Layout -------------------------------
(* The fixed-width binary records of the BBS: article entries, boards, accounts, sessions, and the
   article entries of Formosa BBS.

   A layout is its size and its fields in the order of their offsets.  A field is
   [f name, o offset from 0, w width in bytes, k kind, e width that is written]; kinds are
     str   bytes, up to the first NUL if there is one
     b5    the same, text in Big5
     raw   bytes
     u8 i8 u16 i16 u32 i32 numbers, little-endian; four bytes are a pair <<high, low>>
     bool  a byte, 0 is false, written as 0 or 1
     time  seconds since 1970, as u32
   Bytes of no field are padding, written as zero.  A record is a function from the names. *)
EXTENDS Fav

Fd(f, o, w, k) == [f |-> f, o |-> o, w |-> w, k |-> k, e |-> w]

\* fields that follow one another; a step is <<name, width, kind>>, name "" is padding
RECURSIVE Laid(_, _)
Laid(o, s) ==
  IF s = <<>> THEN <<>>
  ELSE LET x == Head(s)
       IN (IF x[1] = "" THEN <<>> ELSE <<Fd(x[1], o, x[2], x[3])>>) \o Laid(o + x[2], Tail(s))

\* struct userec_t
User == [size |-> 512, fs |-> TLCEval(
  LET s == <<<<"version", 4, "u32">>, <<"userid", 13, "str">>, <<"realname", 20, "b5">>, <<"nickname", 24, "b5">>,
    <<"password", 14, "str">>, <<"", 1, "">>, <<"userflag", 4, "u32">>, <<"", 4, "">>, <<"level", 4, "u32">>,
    <<"logindays", 4, "u32">>, <<"posts", 4, "u32">>, <<"firstlogin", 4, "time">>, <<"lastlogin", 4, "time">>,
    <<"lasthost", 16, "str">>, <<"money", 4, "i32">>, <<"", 4, "">>, <<"email", 50, "b5">>, <<"address", 50, "b5">>,
    <<"justify", 39, "b5">>, <<"", 3, "">>, <<"over18", 1, "bool">>, <<"pagerui", 1, "u8">>, <<"pager", 1, "u8">>,
    <<"invisible", 1, "bool">>, <<"", 2, "">>, <<"exmailbox", 4, "u32">>, <<"", 4, "">>, <<"career", 40, "b5">>,
    <<"", 68, "">>, <<"role", 4, "u32">>, <<"lastseen", 4, "time">>, <<"setangel", 4, "time">>,
    <<"playangel", 4, "time">>, <<"lastsong", 4, "time">>, <<"loginview", 4, "u32">>, <<"", 2, "">>,
    <<"violatelaw", 2, "u16">>, <<"fivew", 2, "u16">>, <<"fivel", 2, "u16">>, <<"fivet", 2, "u16">>,
    <<"chcw", 2, "u16">>, <<"chcl", 2, "u16">>, <<"chct", 2, "u16">>, <<"conn6w", 2, "u16">>, <<"conn6l", 2, "u16">>,
    <<"conn6t", 2, "u16">>, <<"", 2, "">>, <<"gow", 2, "u16">>, <<"gol", 2, "u16">>, <<"got", 2, "u16">>,
    <<"darkw", 2, "u16">>, <<"darkl", 2, "u16">>, <<"uaversion", 1, "u8">>, <<"signature", 1, "u8">>, <<"", 1, "">>,
    <<"badpost", 1, "u8">>, <<"darkt", 2, "u16">>, <<"myangel", 13, "str">>, <<"", 1, "">>, <<"elo", 2, "u16">>,
    <<"withme", 4, "u32">>, <<"rmbadpost", 4, "time">>, <<"lawtime", 4, "time">>>>
  IN Laid(0, s))]

\* struct userinfo_t
Info == [size |-> 3484, fs |-> TLCEval(Laid(0,
  <<<<"uid", 4, "i32">>, <<"pid", 4, "i32">>, <<"sockaddr", 4, "i32">>, <<"level", 4, "u32">>, <<"userid", 13, "str">>,
    <<"nickname", 24, "b5">>, <<"from", 27, "str">>, <<"fromip", 4, "u32">>, <<"darkw", 2, "u16">>, <<"darkl", 2, "u16">>,
    <<"", 1, "">>, <<"angelpause", 1, "u8">>, <<"darkt", 2, "u16">>, <<"friendtotal", 4, "i32">>,
    <<"numfriends", 2, "i16">>, <<"", 2, "">>, <<"myfriend", 1024, "raw">>, <<"", 4, "">>, <<"friendonline", 1024, "raw">>,
    <<"", 4, "">>, <<"reject", 128, "raw">>, <<"", 4, "">>, <<"msgcount", 1, "u8">>, <<"", 3, "">>, <<"msgs", 1000, "raw">>,
    <<"", 100, "">>, <<"birth", 1, "bool">>, <<"active", 1, "bool">>, <<"invisible", 1, "bool">>, <<"mode", 1, "u8">>,
    <<"pager", 1, "bool">>, <<"", 1, "">>, <<"conn6w", 2, "u16">>, <<"lastact", 4, "time">>, <<"alerts", 1, "u8">>,
    <<"", 1, "">>, <<"conn6l", 2, "u16">>, <<"", 1, "">>, <<"signature", 1, "u8">>, <<"conn6t", 2, "u16">>,
    <<"destuid", 4, "i32">>, <<"destuip", 4, "i32">>, <<"sockactive", 1, "u8">>, <<"inchat", 1, "u8">>,
    <<"chatid", 11, "str">>, <<"lockmode", 1, "u8">>, <<"turn", 1, "bool">>, <<"mateid", 13, "b5">>, <<"color", 1, "u8">>, <<"", 1, "">>,
    <<"fivew", 2, "u16">>, <<"fivel", 2, "u16">>, <<"fivet", 2, "u16">>, <<"chcw", 2, "u16">>, <<"chcl", 2, "u16">>,
    <<"chct", 2, "u16">>, <<"elo", 2, "u16">>, <<"gow", 2, "u16">>, <<"gol", 2, "u16">>, <<"got", 2, "u16">>, <<"", 2, "">>,
    <<"withme", 4, "u32">>, <<"brcid", 4, "u32">>, <<"wbtime", 4, "time">>>>))]

\* struct fileheader_t; union is the money, the number of an anonymous author, or the limits of a vote
File == [size |-> 128, fs |-> TLCEval(Laid(0,
  <<<<"filename", 28, "str">>, <<"modified", 4, "time">>, <<"", 1, "">>, <<"recommend", 1, "i8">>, <<"owner", 14, "str">>,
    <<"date", 6, "str">>, <<"title", 65, "b5">>, <<"", 1, "">>, <<"union", 4, "u32">>, <<"filemode", 1, "u8">>>>))]

\* struct boardheader_t
Board == [size |-> 256, fs |-> TLCEval(Laid(0,
  <<<<"brdname", 13, "b5">>, <<"title", 49, "b5">>, <<"bm", 39, "str">>, <<"", 3, "">>, <<"brdattr", 4, "u32">>,
    <<"chesscountry", 1, "str">>, <<"votelimitposts", 1, "u8">>, <<"votelimitlogins", 1, "u8">>, <<"", 1, "">>,
    <<"bupdate", 4, "time">>, <<"postlimitposts", 1, "u8">>, <<"postlimitlogins", 1, "u8">>, <<"", 1, "">>,
    <<"bvote", 1, "u8">>, <<"vtime", 4, "time">>, <<"level", 4, "u32">>, <<"permreload", 4, "time">>, <<"gid", 4, "i32">>,
    <<"next", 8, "raw">>, <<"firstchild", 8, "raw">>, <<"parent", 4, "i32">>, <<"childcount", 4, "i32">>,
    <<"nuser", 4, "i32">>, <<"postexpire", 4, "i32">>, <<"endgamble", 4, "time">>, <<"posttype", 33, "b5">>,
    <<"posttypef", 1, "str">>, <<"fastpause", 1, "u8">>, <<"votelimitbad", 1, "u8">>, <<"postlimitbad", 1, "u8">>,
    <<"", 3, "">>, <<"srexpire", 4, "time">>>>))]

\* the entries of Formosa BBS are only read
Formosa == [size |-> 248, fs |-> TLCEval(Laid(0,
  <<<<"filename", 44, "str">>, <<"", 28, "">>, <<"postno", 4, "i32">>, <<"", 4, "">>, <<"owner", 72, "str">>,
    <<"modified", 4, "time">>, <<"", 4, "">>, <<"title", 67, "b5">>>>))]

LayoutOf(n) == CASE n = "user" -> User [] n = "info" -> Info [] n = "file" -> File
                 [] n = "board" -> Board [] n = "formosa" -> Formosa
LayoutNames == {"user", "info", "file", "board", "formosa"}

Proper(L) == /\ \A i \in DOMAIN L.fs : L.fs[i].w > 0 /\ L.fs[i].e <= L.fs[i].w /\ L.fs[i].o + L.fs[i].w <= L.size
             /\ \A i \in DOMAIN L.fs : i > 1 => L.fs[i].o >= L.fs[i-1].o + L.fs[i-1].w
             /\ \A i, j \in DOMAIN L.fs : L.fs[i].f = L.fs[j].f => i = j
ASSUME \A n \in LayoutNames : Proper(LayoutOf(n))
ASSUME LET o(n, f) == LET s == SelectSeq(LayoutOf(n).fs, LAMBDA x : x.f = f) IN s[1].o
       IN \* offsets which the BBS's own headers give
          /\ o("user", "email") = 128 /\ o("user", "role") = 392 /\ o("user", "elo") = 470 /\ o("user", "lawtime") = 480
          /\ o("board", "bupdate") = 112 /\ o("board", "gid") = 132 /\ o("board", "srexpire") = 212
          /\ o("file", "owner") = 34 /\ o("file", "title") = 54 /\ o("file", "filemode") = 124
          /\ o("info", "myfriend") = 100 /\ o("info", "fivew") = 3450 /\ o("info", "withme") = 3472 /\ o("info", "wbtime") = 3480 /\ o("formosa", "title") = 160

-----------------------------------------------------------------------------
Signed(v, n) == IF v >= n THEN v - 2 * n ELSE v
FieldOf(h, x) ==       \* the value of field x in the bytes h
  LET c == x.o + 1
  IN CASE x.k \in {"str", "b5"} -> CStr(HSub(h, c, x.o + x.w), x.w)
       [] x.k = "raw" -> HSub(h, c, x.o + x.w)
       [] x.k = "u8" -> B(h, c)
       [] x.k = "i8" -> Signed(B(h, c), 128)
       [] x.k = "u16" -> U16At(h, c)
       [] x.k = "i16" -> Signed(U16At(h, c), 32768)
       [] x.k \in {"u32", "time"} -> U32At(h, c)
       [] x.k = "i32" -> LET p == U32At(h, c) IN <<Signed(p[1], 32768), p[2]>>
       [] x.k = "bool" -> IF B(h, c) = 0 THEN 0 ELSE 1

FieldBytes(v, x) ==    \* the bytes of value v in field x
  CASE x.k \in {"str", "b5"} -> HexText(HexText(v, x.e), x.w)
    [] x.k = "raw" -> v
    [] x.k \in {"u8", "bool"} -> HexU8(v)
    [] x.k = "i8" -> HexU8((v + 256) % 256)
    [] x.k = "u16" -> HexU16(v)
    [] x.k = "i16" -> HexU16((v + 65536) % 65536)
    [] x.k \in {"u32", "time"} -> HexU32(v)
    [] x.k = "i32" -> HexU32(<<(v[1] + 65536) % 65536, v[2]>>)

Decode(L, h) ==
  LET fs == L.fs
      at == TLCEval([f \in {fs[i].f : i \in DOMAIN fs} |-> CHOOSE i \in DOMAIN fs : fs[i].f = f])
  IN [f \in DOMAIN at |-> FieldOf(h, fs[at[f]])]

RECURSIVE EncFrom(_, _, _, _)
EncFrom(L, v, i, o) ==   \* the bytes from offset o on, fields from the i-th on
  IF i > Len(L.fs) THEN Zeros(L.size - o)
  ELSE LET x == L.fs[i]
       IN Zeros(x.o - o) \o FieldBytes(v[x.f], x) \o EncFrom(L, v, i + 1, x.o + x.w)
Encode(L, v) == EncFrom(L, v, 1, 0)

-----------------------------------------------------------------------------
(* What a program holds: for article entries the four bytes of the union are held three times, and
   the file mode says which of the three is written. *)
Vote(m) == (m \div 64) % 2 = 1
Anon(m) == (m \div 128) % 2 = 1
\* the settings of a board, by the name under which a program asks for them: the bit of brdattr
BoardFlags == [IsNoCount |-> 1, IsGroupBoard |-> 3, IsClass |-> 3, IsHide |-> 4, IsPostMask |-> 5, IsAnonymous |-> 6,
  IsDefaultAnonymous |-> 7, IsNoCredit |-> 8, IsVoteBoard |-> 9, IsWarnEL |-> 10, IsTop |-> 11, IsNoRecommend |-> 12,
  IsAngelAnonymous |-> 13, IsBMCount |-> 14, IsIsSymbolic |-> 15, IsNoBoo |-> 16, IsRestrictedPost |-> 18,
  IsGuestPost |-> 19, IsCooldown |-> 20, IsCPLog |-> 21, IsNoFastRecommend |-> 22, IsIPLogRecommend |-> 23,
  IsOver18 |-> 24, IsNoReply |-> 25, IsAlignedComment |-> 26, IsNoSelfDeletePost |-> 27, IsBMMaskContent |-> 28]
ASSUME \A f, g \in DOMAIN BoardFlags : BoardFlags[f] = BoardFlags[g] => f = g \/ {f, g} = {"IsGroupBoard", "IsClass"}
Bit4(p, k) == IF k < 16 THEN (p[2] \div 2^k) % 2 ELSE (p[1] \div 2^(k - 16)) % 2
FlagsOf(n, v) ==       \* the settings that hold in the record v
  CASE n = "board" -> {g \in DOMAIN BoardFlags : Bit4(v.brdattr, BoardFlags[g]) = 1}
    [] n = "file" -> IF Vote(v.filemode) THEN {"IsVotePost"} ELSE {}
    [] OTHER -> {}
FlagsKnown(n) == CASE n = "board" -> DOMAIN BoardFlags [] n = "file" -> {"IsVotePost"} [] OTHER -> {}

Held(n, v) ==
  IF n # "file" THEN v
  ELSE LET u == v.union
       IN [f \in (DOMAIN v \ {"union"}) \cup {"money", "anno", "vl"} |->
             CASE f \in {"money", "anno"} -> u
               [] f = "vl" -> IF Vote(v.filemode) THEN HexU32(u) ELSE "00000000"
               [] OTHER -> v[f]]
Given(n, v) ==
  IF n # "file" THEN v
  ELSE [f \in (DOMAIN v \ {"money", "anno", "vl"}) \cup {"union"} |->
          IF f # "union" THEN v[f]
          ELSE IF Vote(v.filemode) THEN U32At(v.vl, 1) ELSE IF Anon(v.filemode) THEN v.anno ELSE v.money]

Read(n, h) == Held(n, Decode(LayoutOf(n), h))
Write(n, v) == Encode(LayoutOf(n), Given(n, v))

\* a list of records; what is behind the last whole record: refused, left out, or a record that is cut off
RECURSIVE Whole(_, _)
Whole(n, h) == LET s == LayoutOf(n).size
               IN IF HLen(h) < s THEN <<>> ELSE <<HSub(h, 1, s)>> \o Whole(n, HSub(h, s + 1, HLen(h)))
Rest(n, h) == LET s == LayoutOf(n).size IN HSub(h, HLen(h) - (HLen(h) % s) + 1, HLen(h))
ReadAll(n, h) ==      \* set of [r, v]
  LET w == Whole(n, h)
      v == [i \in DOMAIN w |-> Read(n, w[i])]
      t == Rest(n, h)
  IN IF t = "" THEN {[r |-> "ok", v |-> v]}
     ELSE {[r |-> "ok", v |-> v], [r |-> "err", v |-> <<>>],
           [r |-> "ok", v |-> Append(v, Read(n, HexText(t, LayoutOf(n).size)))]}
=============================================================================
