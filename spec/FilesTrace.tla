----------------------------- MODULE FilesTrace -----------------------------
(* Recorded readings and writings of files and records, each judged by itself. *)
EXTENDS BBS, DesCrypt, LoginLog, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES vH, vI
vars == <<vH, vI>>

Ev == Traces[vH].ev

RECURSIVE FavNormItems(_, _, _)
\* the tree that is read back: items numbered, titles as their fields hold them
FavNormItems(s, nf, nl) ==
  IF s = <<>> THEN <<>>
  ELSE LET x == Head(s)
       IN CASE x.t = FBoard -> <<x>> \o FavNormItems(Tail(s), nf, nl)
            [] x.t = FLine -> <<[x EXCEPT !.id = (nl + 1) % 256]>> \o FavNormItems(Tail(s), nf, nl + 1)
            [] x.t = FFolder -> <<[x EXCEPT !.id = (nf + 1) % 256, !.title = CStr(@, 49),
                                            !.items = FavNormItems(@, 0, 0)]>> \o FavNormItems(Tail(s), nf + 1, nl)

(* Very long lists: n records, of which only those of the set given are not zero; each [i, e]. *)
Big(e) ==
  LET pre == {[i |-> x.i, e |-> x.v] : x \in SeqSet(e.pre)}
      same == [r |-> "err", n2 |-> e.n, rest |-> 0, recs |-> pre]
      at(i, v, n) == [r |-> "ok", n2 |-> n, rest |-> 0, recs |-> {x \in pre : x.i # i} \cup {[i |-> i, e |-> v]}]
  IN CASE e.act = "list" -> {[same EXCEPT !.r = "ok"]}
       [] e.act = "upd" -> {IF e.ix < e.n THEN at(e.ix, Stored(NewEntry(e.rec)), e.n) ELSE same}
       [] e.act = "add" -> {at(e.n, Stored(NewEntry(e.rec)), e.n + 1)}
       [] e.act = "rm" -> {IF e.ix < 0 \/ e.ix >= e.n THEN same
                           ELSE [r |-> "ok", n2 |-> e.n - 1, rest |-> 0,
                                 recs |-> {IF x.i > e.ix THEN [x EXCEPT !.i = @ - 1] ELSE x : x \in {y \in pre : y.i # e.ix}}]}

(* A long article: whole lines, repeated; the comments are those of the lines, numbered anew. *)
BigComments(e) ==
  LET per == TLCEval([i \in DOMAIN e.segs |-> Comments(e.segs[i].c)])
      parts == [i \in DOMAIN per |-> IF per[i].cs = <<>> THEN <<>>
                                     ELSE [j \in 1..(Len(per[i].cs) * e.segs[i].rep) |-> per[i].cs[((j - 1) % Len(per[i].cs)) + 1]]]
      all == TLCEval(Flat(parts))
      v(u) == [i \in DOMAIN all |-> [n |-> ToString(i), own |-> all[i].own, t |-> all[i].t, txt |-> IF u THEN all[i].utxt ELSE all[i].txt,
                                     b |-> "test", fn |-> StrHex("M.1500000000.A.0BC")]]
  IN IF \A i \in DOMAIN per : per[i].ok THEN {[r |-> "ok", v |-> v(u)] : u \in BOOLEAN} ELSE {[r |-> "err"]}

(* Records of a layout: read, written again, one of them changed, written and read. *)
\* the settings that are told (asked, on) are those of the bits
FlagsOK(n, v, w) == ("asked" \in DOMAIN w) => (SeqSet(w.on) \cap FlagsKnown(n)) = (FlagsOf(n, v) \cap SeqSet(w.asked))
Only(v, w) == [f \in DOMAIN w |-> IF f \in {"asked", "on"} THEN w[f] ELSE IF f \in DOMAIN v THEN v[f] ELSE "no such field"]
RECURSIVE SetAll(_, _, _)
SetAll(v, s, names) == IF s = <<>> THEN v
                       ELSE SetAll(IF Head(s).f \in names THEN [v EXCEPT ![Head(s).f] = Head(s).v] ELSE v, Tail(s), names)
Codec(e) ==
  LET n == e.lay
      one(x) ==
        IF x.r = "err" \/ Len(x.v) # Len(e.v) THEN [r |-> x.r, count |-> Len(x.v)]
        ELSE LET w == IF n = "formosa" THEN [i \in DOMAIN x.v |-> ""] ELSE [i \in DOMAIN x.v |-> Write(n, x.v[i])]
                 base == [r |-> "ok", v |-> [i \in DOMAIN x.v |-> Only(x.v[i], e.v[i])], out |-> w]
             IN IF ~(\A i \in DOMAIN x.v : FlagsOK(n, x.v[i], e.v[i])) THEN [base EXCEPT !.r = "the settings of the bits"]
                ELSE IF e.applied = <<>> THEN base
                ELSE LET c == Write(n, SetAll(x.v[e.k + 1], e.set, SeqSet(e.applied)))
                     IN [r |-> IF FlagsOK(n, Read(n, c), e.v2) THEN "ok" ELSE "the settings of the bits", v |-> base.v, out |-> w, out2 |-> c, v2 |-> Only(Read(n, c), e.v2)]
  IN {one(x) : x \in ReadAll(n, e.c)}

\* what the specification says about an event: [r, and the fields that must be as given]
Expect(e) ==
  CASE e.op = "favraw" ->
         LET f == FavParse(e.c)
         IN IF ~f.ok THEN {[r |-> "err"]}
            \* numbers of items that are not those of the items: refused, or read as what is there
            ELSE IF ~f.wf THEN {[r |-> "err"], [r |-> "ok", v |-> f.v]}
            ELSE {[r |-> "ok", v |-> f.v, out |-> FavEncode(f.v)]}
    [] e.op = "favtree" ->
         {[r |-> "ok", out |-> FavEncode([ver |-> e.ver, items |-> e.items]),
           v |-> [ver |-> e.ver, items |-> FavNormItems(e.items, 0, 0)]]}
    [] e.op = "sparse" -> Big(e)
    [] e.op = "bigcomments" -> BigComments(e)
    [] e.op = "codec" -> Codec(e)
    [] e.op = "loginw" -> {[r |-> "ok", out |-> WriteLine(e), home |-> IF e.id = "" THEN 0 ELSE 1,
                            v |-> [s |-> e.s, id |-> e.id, t |-> e.t, host |-> e.host]]}
    [] e.op = "pw" -> IF "mixed" \in DOMAIN e THEN {} ELSE {[r |-> v] : v \in Verdicts(e.field, e.pw)}

LoginsOK(e) ==
  /\ MayRead(e.kind, IF e.via = "line" THEN <<e.c>> ELSE LogLines(e.c), e.r, e.v)
  /\ \A i \in DOMAIN e.out : e.out[i] = WriteLine(e.v[i])
  /\ (e.r = "ok" /\ e.kind = "bad" => Len(e.out) = Len(e.v))

EvOK(e) == /\ IF e.op = "logins" THEN LoginsOK(e) ELSE \E x \in Expect(e) : \A f \in DOMAIN x : f \in DOMAIN e /\ (IF f = "recs" THEN SeqSet(e[f]) ELSE e[f]) = x[f]
           /\ ("argmod" \in DOMAIN e => e.argmod = 0)
           /\ ("fds" \in DOMAIN e => e.fds <= 0)

Init == vH \in 1..Len(Traces) /\ vI = 1
Next == /\ vI <= Len(Ev)
        /\ (IOEnv.DBG = "1" => PrintT(<<"EXP", vI, IF Ev[vI].op = "logins" THEN [i \in DOMAIN LogLines(Ev[vI].c) |-> ParseLine(Ev[vI].kind, LogLines(Ev[vI].c)[i])]
                                             ELSE Expect(Ev[vI])>>))
        /\ EvOK(Ev[vI])
        /\ vI' = vI + 1 /\ vH' = vH
        /\ (vI' > Len(Ev) => PrintT(<<"ACC", Traces[vH].id>>))
        /\ (IOEnv.DBG = "1" => PrintT(<<"AT", vI'>>))
Spec == Init /\ [][Next]_vars
=============================================================================
