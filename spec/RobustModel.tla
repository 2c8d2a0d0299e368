---------------------------- MODULE RobustModel ----------------------------
(* Files of every format, written by the specification, and each with one thing wrong: cut off, one byte
   replaced, dropped or doubled; all are read by the implementation.  And names of every form. *)
EXTENDS Robust, Json
CONSTANTS Bytes, Atoms, NameLen

RNum(k) == CASE k \in {"u8", "u16", "i8", "i16", "bool"} -> 1 [] OTHER -> <<0, 1>>
Fill(n, x) == IF x = "" THEN Zeros(n) ELSE HexText(x, n)
SomeOf(L, texts) == [f \in {L.fs[i].f : i \in DOMAIN L.fs} |->
                      LET x == SelectSeq(L.fs, LAMBDA y : y.f = f)[1]
                      IN CASE x.k \in {"str", "b5"} -> IF f \in DOMAIN texts THEN texts[f] ELSE "41"
                           [] x.k = "raw" -> Zeros(x.w)
                           [] OTHER -> IF f \in DOMAIN texts THEN texts[f] ELSE RNum(x.k)]
Article(mode) == Encode(File, SomeOf(File, [filename |-> StrHex("M.1400000000.A.001"), owner |-> StrHex("alice"), date |-> StrHex(" 1/02"),
                                            title |-> "a477a4e57e", filemode |-> mode]))
BoardRec(n) == Encode(Board, SomeOf(Board, [brdname |-> StrHex(n), title |-> "a477a4e57e", bm |-> StrHex("alice/bob")]))
UserRec(n) == Encode(User, SomeOf(User, [userid |-> StrHex(n), password |-> StrHex("ab3MqxCHqdkIg"), nickname |-> "a477a4e57e"]))
Tree == [ver |-> 3363, items |-> <<
  [t |-> FBoard, attr |-> 1, id |-> <<0, 1>>, visit |-> <<0, 0>>, battr |-> <<0, 0>>],
  [t |-> FFolder, attr |-> 1, id |-> 1, title |-> "a477a4e57e", items |-> <<
     [t |-> FLine, attr |-> 1, id |-> 1], [t |-> FFolder, attr |-> 1, id |-> 1, title |-> "41", items |-> <<>>]>>],
  [t |-> FLine, attr |-> 1, id |-> 1]>>]
LogLine(id) == WriteLine([s |-> 0, id |-> StrHex(id), t |-> <<2021, 1, 1, 10, 15, 16>>, host |-> StrHex("172.22.0.1")])
Recent == DateHex(<<2021, 1, 1, 10, 15, 16>>) \o "20" \o StrHex("172.22.0.1")
NL == "0a"
Push(u) == "1b5b313b33376db1c0201b5b33336d" \o StrHex(u) \o "1b5b6d1b5b33336d3a" \o StrHex(" a: b") \o "1b5b6d" \o StrHex(" 10/12 13:45")
Files == {<<"dir", Article(0) \o Article(64)>>, <<"tdir", Article(128)>>, <<"brd", BoardRec("test") \o BoardRec("")>>,
          <<"pwd", UserRec("alice")>>, <<"fav", FavEncode(Tree)>>, <<"bad", LogLine("alice") \o NL \o LogLine("bob") \o NL>>,
          <<"sitebad", LogLine("") \o NL>>, <<"recent", Recent \o NL \o Recent \o NL>>,
          <<"sess", Zeros(40)>>,
          <<"formosa", Encode(Formosa, SomeOf(Formosa, [title |-> "a477a4e57e"]))>>,
          <<"text", Push("alice") \o NL \o Push("bob") \o NL \o StrHex("--") \o NL>>, <<"draft", StrHex("text")>>, <<"ttext", StrHex("text")>>}

Wrong(l) ==
  UNION {{HSub(l, 1, i - 1) \o b \o HSub(l, i + 1, HLen(l)) : b \in Bytes \ {HByte(l, i)}}
         \cup {HSub(l, 1, i - 1) \o HSub(l, i + 1, HLen(l)), HSub(l, 1, i) \o HSub(l, i, HLen(l)), HSub(l, 1, i - 1)} : i \in 1..HLen(l)}

VARIABLES v
Init == v \in [k : {"file"}, f : Files, n : {0}] \cup [k : {"name"}, f : {<<"">>}, n : {0}]
Next == /\ v.n < (IF v.k = "name" THEN NameLen ELSE 1)
        /\ IF v.k = "file" THEN \E w \in Wrong(v.f[2]) : v' = [v EXCEPT !.f[2] = w, !.n = 1]
           ELSE \E a \in Atoms : v' = [v EXCEPT !.f[1] = @ \o a, !.n = @ + 1]
Spec == Init /\ [][Next]_v
\* the files without fault are proper
Proper0 == v.k = "file" /\ v.n = 0 =>
  LET c == v.f[2]
  IN CASE v.f[1] = "fav" -> FavParse(c).ok /\ FavParse(c).wf
       [] v.f[1] \in {"bad", "sitebad"} -> \A l \in SeqSet(LogLines(c)) : ParseLine("bad", l).k = "good"
       [] v.f[1] = "recent" -> \A l \in SeqSet(LogLines(c)) : ParseLine("recent", l).k = "good"
       [] v.f[1] \in {"dir", "tdir"} -> HLen(c) % File.size = 0 /\ \A x \in ReadAll("file", c) : Len(x.v) = HLen(c) \div File.size
       [] OTHER -> TRUE
Shown == PrintT("VAL@@@" \o ToJson([k |-> v.k, f |-> v.f]))
=============================================================================
