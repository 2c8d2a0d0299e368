-------------------------------- MODULE Fav --------------------------------
(* The favourites file of a user (.fav), as bytes and as a tree.

   file    u16 version, folder
   folder  u16 number of boards, u8 number of lines, u8 number of folders, that many items of any
           kind in any order, and then the contents of the folders among them, in the same order
   item    u8 kind (1 board, 2 folder, 3 line), u8 attributes, and
           board   u32 number of the board (from 1), u32 time of the last visit, u32 attributes
           folder  u8 number of the folder, 49 bytes title (NUL-terminated)
           line    u8 number of the line
   Numbers are little-endian.  A tree is [ver, items]; folders and lines are numbered from 1 within
   their folder when the file is read. *)
EXTENDS Text

\* numbers of a byte string h at byte c (from 1)
B(h, c) == ByteVal[HByte(h, c)]
U16At(h, c) == B(h, c) + 256 * B(h, c + 1)
U32At(h, c) == <<U16At(h, c + 2), U16At(h, c)>>
HexU8(v) == ByteHex[v % 256]
HexU16(v) == ByteHex[v % 256] \o ByteHex[(v \div 256) % 256]
HexU32(p) == HexU16(p[2]) \o HexU16(p[1])
RECURSIVE Zeros(_)
Zeros(n) == IF n = 0 THEN "" ELSE IF n = 1 THEN "00"
            ELSE LET z == Zeros(n \div 2) IN z \o z \o (IF n % 2 = 1 THEN "00" ELSE "")
\* a text in a field of n bytes
HexText(h, n) == IF HLen(h) >= n THEN HSub(h, 1, n) ELSE h \o Zeros(n - HLen(h))

FBoard == 1
FFolder == 2
FLine == 3
FWidth(t) == CASE t = FBoard -> 12 [] t = FFolder -> 50 [] t = FLine -> 1 [] OTHER -> -1

Bad == [ok |-> FALSE, c |-> 0, s |-> <<>>, wf |-> TRUE]
CountKind(s, k) == Cardinality({i \in DOMAIN s : s[i].t = k})

RECURSIVE FItems(_, _, _)
FItems(h, c, n) ==
  IF n = 0 THEN [ok |-> TRUE, c |-> c, s |-> <<>>, wf |-> TRUE]
  ELSE IF HLen(h) < c + 1 THEN Bad
  ELSE LET t == B(h, c)
           w == FWidth(t)
       IN IF w < 0 \/ HLen(h) < c + 1 + w THEN Bad
          ELSE LET a == B(h, c + 1)
                   x == CASE t = FBoard -> [t |-> t, attr |-> a, id |-> U32At(h, c + 2), visit |-> U32At(h, c + 6),
                                            battr |-> U32At(h, c + 10)]
                          [] t = FFolder -> [t |-> t, attr |-> a, id |-> B(h, c + 2),
                                             title |-> CStr(HSub(h, c + 3, c + 51), 49), items |-> <<>>]
                          [] t = FLine -> [t |-> t, attr |-> a, id |-> B(h, c + 2)]
                   r == FItems(h, c + 2 + w, n - 1)
               IN IF ~r.ok THEN Bad ELSE [r EXCEPT !.s = <<x>> \o @]

RECURSIVE FFolderAt(_, _)
RECURSIVE FSubs(_, _, _, _, _)
\* the contents of the folders among the items; nf, nl: folders and lines so far
FSubs(h, c, items, nf, nl) ==
  IF items = <<>> THEN [ok |-> TRUE, c |-> c, s |-> <<>>, wf |-> TRUE]
  ELSE LET x == Head(items)
       IN CASE x.t = FBoard -> LET r == FSubs(h, c, Tail(items), nf, nl)
                               IN IF r.ok THEN [r EXCEPT !.s = <<x>> \o @] ELSE Bad
            [] x.t = FLine -> LET r == FSubs(h, c, Tail(items), nf, nl + 1)
                              IN IF r.ok THEN [r EXCEPT !.s = <<[x EXCEPT !.id = (nl + 1) % 256]>> \o @] ELSE Bad
            [] x.t = FFolder ->
                 LET f == FFolderAt(h, c)
                 IN IF ~f.ok THEN Bad
                    ELSE LET r == FSubs(h, f.c, Tail(items), nf + 1, nl)
                         IN IF r.ok THEN [r EXCEPT !.s = <<[x EXCEPT !.id = (nf + 1) % 256, !.items = f.s]>> \o @, !.wf = @ /\ f.wf] ELSE Bad
FFolderAt(h, c) ==
  IF HLen(h) < c + 3 THEN Bad
  ELSE LET i == FItems(h, c + 4, U16At(h, c) + B(h, c + 2) + B(h, c + 3))
       IN IF ~i.ok THEN Bad
          ELSE LET r == FSubs(h, i.c, i.s, 0, 0)
                   \* wf: the numbers are those of the items that follow
                   wf == /\ CountKind(i.s, FBoard) = U16At(h, c) /\ CountKind(i.s, FLine) = B(h, c + 2)
                         /\ CountKind(i.s, FFolder) = B(h, c + 3)
               IN IF r.ok THEN [r EXCEPT !.wf = @ /\ wf] ELSE Bad

\* the tree that is stored in the bytes h: [ok, wf, v]
FavParse(h) ==
  IF HLen(h) < 2 THEN [ok |-> FALSE, wf |-> TRUE, v |-> <<>>]
  ELSE LET f == FFolderAt(h, 3)
       IN IF f.ok THEN [ok |-> TRUE, wf |-> f.wf, v |-> [ver |-> U16At(h, 1), items |-> f.s]] ELSE [ok |-> FALSE, wf |-> TRUE, v |-> <<>>]

RECURSIVE FEncFolder(_)
RECURSIVE FEncItems(_)
FEncItems(s) ==
  IF s = <<>> THEN ""
  ELSE LET x == Head(s)
       IN HexU8(x.t) \o HexU8(x.attr) \o
          (CASE x.t = FBoard -> HexU32(x.id) \o HexU32(x.visit) \o HexU32(x.battr)
             [] x.t = FFolder -> HexU8(x.id) \o HexText(x.title, 49)
             [] x.t = FLine -> HexU8(x.id)) \o FEncItems(Tail(s))
RECURSIVE FEncSubs(_)
FEncSubs(s) == IF s = <<>> THEN ""
               ELSE (IF Head(s).t = FFolder THEN FEncFolder(Head(s).items) ELSE "") \o FEncSubs(Tail(s))
FEncFolder(s) == HexU16(CountKind(s, FBoard)) \o HexU8(CountKind(s, FLine)) \o HexU8(CountKind(s, FFolder))
                 \o FEncItems(s) \o FEncSubs(s)
FavEncode(t) == HexU16(t.ver) \o FEncFolder(t.items)

\* what a user of the library sees of it, given the board list
FLineTitle == "2d2d2d2d2d2d2d2d2d2d2d2d2d2d2d2d2d2d2d2d2d2d2d2d2d2d2d2d2d2d2d2d2d2d2d2d2d2d2d2d2d2d"
BoardNamed(id, brds) == IF id[1] = 0 /\ id[2] >= 1 /\ id[2] <= Len(brds) THEN brds[id[2]].id ELSE ""
RECURSIVE FavView(_, _)
FavView(s, brds) ==
  [i \in DOMAIN s |->
     CASE s[i].t = FBoard -> [t |-> "board", title |-> "", b |-> BoardNamed(s[i].id, brds), items |-> <<>>]
       [] s[i].t = FFolder -> [t |-> "folder", title |-> s[i].title, b |-> "", items |-> FavView(s[i].items, brds)]
       [] s[i].t = FLine -> [t |-> "line", title |-> FLineTitle, b |-> "", items |-> <<>>]]

=============================================================================
