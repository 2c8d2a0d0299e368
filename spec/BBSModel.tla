------------------------------ MODULE BBSModel ------------------------------
(* Bounded instances of BBS, explored completely: every call of a small vocabulary in every reachable
   state.  They serve twice: TLC checks the properties below on them, and every transition is printed
   and then performed on the implementation (a transition tour, see lib/tour.py). *)
EXTENDS BBS, Json, IOUtils

CONSTANTS Group,     \* which part of the vocabulary
          MaxLen,    \* entries per list, bytes per text
          Deep       \* the larger vocabulary

VARIABLES st, act
vars == <<st, act>>

E1 == [fn |-> "4d2e31", own |-> "616c696365", date |-> "312f3031", title |-> "a477a4e5"]
E2 == [fn |-> "4d2e32", own |-> "626f62", date |-> "31322f3331", title |-> "7478", setmod |-> "4294967295",
       addrec |-> -1, mode |-> 128, anno |-> <<1, 2>>]
E3 == [fn |-> "4d2e33", own |-> "", date |-> "", title |-> "", mode |-> 64, vl |-> <<1, 2, 3, 255>>]

Idx(n) == IF n = 1000000000 THEN "18446744073709551615" ELSE ToString(n)

Bs == {"Test", "test"}
ListCalls ==
  {[op |-> "add", h |-> 0, b |-> "Test", rec |-> r, via |-> "db"] : r \in {E1, E2, E3}}
  \cup {[op |-> "add", h |-> 0, b |-> b, rec |-> E1, via |-> "db"] : b \in {"test", "", "Absent"}}
  \cup {[op |-> "list", h |-> 0, b |-> b, via |-> "db"] : b \in Bs \cup {"", "Absent"}}
  \cup {[op |-> "upd", h |-> 0, b |-> b, at |-> Idx(i), ix |-> i, rec |-> E3]
          : b \in {"Test", "Absent"}, i \in (0..MaxLen) \cup {1000000000}}
  \cup {[op |-> "upd", h |-> 0, b |-> "Test", at |-> Idx(i), ix |-> i, from |-> i, rec |-> r]
          : i \in 0..(MaxLen - 1),
            r \in {[title |-> "6e6577"], [x \in {} |-> 0]} \cup (IF Deep THEN {[addrec |-> -128]} ELSE {})}
  \cup {[op |-> "addcopy", h |-> 0, b |-> "test", b2 |-> "Test", i |-> 0]}
  \cup {[op |-> "uarts", h |-> 0, u |-> u] : u \in {"616c696365", "626f62"}}

TextCalls ==
  {[op |-> "write", h |-> 0, b |-> b, f |-> f, c |-> c, via |-> "db"]
     : b \in Bs, f \in {"M.1.A.000", "M.1.A.001"}, c \in {"", "61", "0d0a00"}}
  \cup {[op |-> "append", h |-> 0, b |-> b, f |-> "M.1.A.000", c |-> c, via |-> "db"] : b \in Bs, c \in {"", "61", "ff"}}
  \cup {[op |-> "append", h |-> 0, b |-> b, f |-> "M.1.A.009", c |-> "61", via |-> "db"] : b \in {"Test", "", "Absent"}}
  \cup {[op |-> "read", h |-> 0, b |-> b, f |-> f] : b \in Bs \cup {""}, f \in {"M.1.A.000", "M.1.A.001", "M.1.A.009"}}
  \cup {[op |-> "write", h |-> 0, b |-> b, f |-> "M.1.A.000", c |-> "61", via |-> "db"] : b \in {"", "Absent"}}

DraftCalls ==
  {[op |-> "wdraft", h |-> 0, u |-> u, d |-> d, c |-> c] : u \in {"bob", "Bob"}, d \in {"0", "1"}, c \in {"", "61", "6162"}}
  \cup {[op |-> o, h |-> 0, u |-> u, d |-> d] : o \in {"rdraft", "ddraft"}, u \in {"bob", "Bob", "absent", ""}, d \in {"0", "1"}}
  \cup {[op |-> "wdraft", h |-> 0, u |-> u, d |-> "0", c |-> "61"] : u \in {"absent", ""}}

BoardCalls ==
  {[op |-> "addboard", h |-> 0, via |-> "db", rec |-> r]
     : r \in {[id |-> "54657374", title |-> "a477a4e5"],
              [id |-> "74657374", title |-> "", attr |-> <<32768, 8>>, gid |-> "-1", lvl |-> <<1, 2>>],
              [id |-> "414c4c504f5354", title |-> "78"]}}
  \cup {[op |-> "rmboard", h |-> 0, at |-> Idx(i), ix |-> i] : i \in -1..MaxLen}
  \cup {[op |-> "boards", h |-> 0]}
  \cup {[op |-> "uarts", h |-> 0, u |-> "616c696365"]}

\* two homes with the same names in them, three handles on them
HomeCalls ==
  {[op |-> "open", h |-> h, hdir |-> d, form |-> f, home |-> IF d = 0 THEN "h0" ELSE "h1"]
     : h \in {0, 1}, d \in {0, 1}, f \in {"file"}}
  \cup {[op |-> "openbad", driver |-> "nosuch"]}
  \cup {[op |-> "add", h |-> h, b |-> "Test", rec |-> E1, via |-> v] : h \in {0, 1}, v \in {"db", "conn"}}
  \cup {[op |-> "list", h |-> h, b |-> "Test", via |-> "db"] : h \in {0, 1}}
  \cup {[op |-> "wdraft", h |-> h, u |-> "bob", d |-> "0", c |-> "61"] : h \in {0, 1}}
  \cup {[op |-> "rdraft", h |-> h, u |-> "bob", d |-> "0"] : h \in {0, 1}}

Calls == CASE Group = "list" -> ListCalls [] Group = "text" -> TextCalls [] Group = "draft" -> DraftCalls
           [] Group = "board" -> BoardCalls [] Group = "home" -> HomeCalls

Setup == <<[op |-> "mkdir", path |-> "h0/boards/T/Test", anc |-> <<"h0", "h0/boards", "h0/boards/T", "h0/boards/T/Test">>],
           [op |-> "mkdir", path |-> "h0/boards/t/test", anc |-> <<"h0/boards/t", "h0/boards/t/test">>],
           [op |-> "mkdir", path |-> "h0/home/b/bob", anc |-> <<"h0/home", "h0/home/b", "h0/home/b/bob">>],
           [op |-> "mkdir", path |-> "h0/home/B/Bob", anc |-> <<"h0/home/B", "h0/home/B/Bob">>],
           [op |-> "mkdir", path |-> "h1/boards/T/Test", anc |-> <<"h1", "h1/boards", "h1/boards/T", "h1/boards/T/Test">>],
           [op |-> "mkdir", path |-> "h1/home/b/bob", anc |-> <<"h1/home", "h1/home/b", "h1/home/b/bob">>],
           [op |-> "put", path |-> "h0/.BRD", kind |-> "brd", c |-> "", v |-> <<>>, anc |-> <<>>],
           [op |-> "open", h |-> 0, hdir |-> 0, form |-> "file", home |-> "h0"],
           [op |-> "open", h |-> 1, hdir |-> 1, form |-> "bare", home |-> "h1"]>>

RECURSIVE RunAll(_, _)
RunAll(s, cs) == IF cs = <<>> THEN s ELSE RunAll((CHOOSE o \in Outcomes(s, Head(cs)) : TRUE).st, Tail(cs))

ASSUME PrintT("SETUP@@@" \o ToJson(Setup))

Init == st = RunAll(InitState, Setup) /\ act = [op |-> "init"]

Fits(s) == /\ (Group = "list" => Len(GetList(s, "h0/boards/t/test/.DIR")) <= 1)
           /\ \A p \in DOMAIN s.lists : Len(s.lists[p]) <= MaxLen
           /\ \A p \in DOMAIN s.brds : Len(s.brds[p]) <= MaxLen
           /\ \A p \in DOMAIN s.texts : HLen(s.texts[p]) <= MaxLen + 1

\* calls that refer to an entry need one
Possible(s, c) ==
  CASE c.op = "addcopy" -> c.i < Len(GetList(s, ListPath(Home(s, c), c.b2)))
    [] c.op = "upd" /\ "from" \in DOMAIN c -> c.from < Len(GetList(s, ListPath(Home(s, c), c.b)))
    [] OTHER -> TRUE

Next == \E c \in Calls :
          /\ Possible(st, c)
          /\ \E o \in Outcomes(st, c) : Fits(o.st) /\ st' = o.st /\ act' = [c |-> c, r |-> o.r]

Spec == Init /\ [][Next]_vars
View == st

\* directories do not change in these models
Shown(s) == ToJson([lists |-> s.lists, brds |-> s.brds, texts |-> s.texts, hd |-> s.hd])
ShowStep == (IOEnv.TOUR = "1") => PrintT("TR@@@" \o Shown(st) \o "@@@" \o ToJson(act'.c) \o "@@@" \o Shown(st'))

-----------------------------------------------------------------------------
(* Properties.  act' is the call that leads to the next state. *)
C == act'.c
Failed == act'.r = "err"

\* an operation that fails changes nothing
FailureChangesNothing == [][Failed => st' = st]_vars

\* an operation changes nothing outside the files of what it names                        (C08)
Isolated ==
  [][\A p \in Files(st) \cup Files(st)' :
       p \in (IF IsSetup(C) THEN {} ELSE WritesOf(st, C)) \/
       (/\ (p \in DOMAIN st.lists <=> p \in DOMAIN st'.lists)
        /\ (p \in DOMAIN st.lists => st.lists[p] = st'.lists[p])
        /\ (p \in DOMAIN st.brds <=> p \in DOMAIN st'.brds)
        /\ (p \in DOMAIN st.brds => st.brds[p] = st'.brds[p])
        /\ (p \in DOMAIN st.texts <=> p \in DOMAIN st'.texts)
        /\ (p \in DOMAIN st.texts => st.texts[p] = st'.texts[p]))]_vars

\* additions extend, nothing is lost                                                       (C01, C06)
Extends(a, b) == Len(b) = Len(a) + 1 /\ SubSeq(b, 1, Len(a)) = a
AddExtends ==
  [][(~Failed /\ C.op \in {"add", "addcopy"}) =>
       Extends(GetList(st, ListPath(Home(st, C), C.b)), GetList(st', ListPath(Home(st, C), C.b)))]_vars
AddBoardExtends ==
  [][(~Failed /\ C.op = "addboard") => Extends(GetBrd(st, BrdPath("h0")), GetBrd(st', BrdPath("h0")))]_vars
\* only updates change an entry, and only theirs                                          (C02)
UpdateIsLocal ==
  [][(~Failed /\ C.op = "upd") =>
       LET p == ListPath(Home(st, C), C.b)
           a == GetList(st, p)  b == GetList(st', p)
       IN Len(a) = Len(b) /\ \A j \in DOMAIN a : j # C.ix + 1 => a[j] = b[j]]_vars
\* what was not edited stays as it was
UpdateKeeps ==
  [][(~Failed /\ C.op = "upd" /\ "from" \in DOMAIN C /\ C.from = C.ix) =>
       LET p == ListPath(Home(st, C), C.b)
           a == st.lists[p][C.ix + 1]  b == st'.lists[p][C.ix + 1]
       IN /\ ("title" \notin DOMAIN C.rec => a.title = b.title)
          /\ ("addrec" \notin DOMAIN C.rec => a.rec = b.rec)
          /\ a.fn = b.fn /\ a.own = b.own /\ a.mod = b.mod /\ a.mon = b.mon /\ a.mode = b.mode /\ a.vl = b.vl]_vars
RemoveIsExact ==
  [][(~Failed /\ C.op = "rmboard") =>
       /\ Len(GetBrd(st', "h0/.BRD")) = Len(GetBrd(st, "h0/.BRD")) - 1
       /\ \A j \in DOMAIN GetBrd(st', "h0/.BRD") :
            GetBrd(st', "h0/.BRD")[j] = GetBrd(st, "h0/.BRD")[IF j <= C.ix THEN j ELSE j + 1]]_vars
\* what was written is read                                                               (C05, C07)
WriteThenRead ==
  [][(~Failed /\ C.op \in {"write", "wdraft"}) =>
       \A p \in WritesOf(st, C) : st'.texts[p] = C.c]_vars
AppendKeeps ==
  [][(~Failed /\ C.op = "append") =>
       \A p \in WritesOf(st, C) : st'.texts[p] = st.texts[p] \o C.c]_vars
\* reading changes nothing
ReadOnly == [][C.op \in {"list", "read", "rdraft", "boards", "uarts"} => st' = st]_vars
\* a handle stays on its home until it is opened again                                    (C08)
HandlesStay == [][\A h \in DOMAIN st.hd : (C.op = "open" /\ C.h = h) \/ st'.hd[h] = st.hd[h]]_vars
\* a listing of a user's articles holds only that user's
=============================================================================
