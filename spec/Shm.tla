-------------------------------- MODULE Shm --------------------------------
(* The shared memory of the BBS: segments under a name (a file, or a System V key), the handles on
   them, and what the records in them mean for a configuration of the BBS.

   st.names   name -> segment; a name is "file:x" or "key:x"
   st.segs    segment -> [size, ps]: zeros, and the pieces ps = <<[at, x]>> written over them
   st.hs      handle -> [seg, len, open, cfg]
   st.kept    slot -> the session record which a caller still holds

   Contents are hexadecimal; a large segment is only its pieces, a small one always one piece. *)
EXTENDS Layout

ShmInit == [names |-> Empty, segs |-> Empty, hs |-> Empty, kept |-> Empty]

-----------------------------------------------------------------------------
Overlay(h, a, p) ==   \* the bytes h, which are those from a on, with the piece p over them
  LET lo == IF p.at > a THEN p.at ELSE a
      hi == IF p.at + HLen(p.x) < a + HLen(h) THEN p.at + HLen(p.x) ELSE a + HLen(h)
  IN IF hi <= lo THEN h
     ELSE HSub(h, 1, lo - a) \o HSub(p.x, lo - p.at + 1, hi - p.at) \o HSub(h, hi - a + 1, HLen(h))
RECURSIVE Over(_, _, _)
Over(h, a, ps) == IF ps = <<>> THEN h ELSE Over(Overlay(h, a, Head(ps)), a, Tail(ps))
\* w bytes from offset a
Range(c, a, w) == IF a = 0 /\ Len(c.ps) = 1 /\ w <= HLen(c.ps[1].x) /\ c.ps[1].at = 0 THEN HSub(c.ps[1].x, 1, w)
                  ELSE Over(Zeros(w), a, c.ps)
Content(size, ps) == LET c == [size |-> size, ps |-> ps]
                     IN IF size <= 4096 THEN [c EXCEPT !.ps = IF size = 0 THEN <<>> ELSE <<[at |-> 0, x |-> Range(c, 0, size)]>>] ELSE c

-----------------------------------------------------------------------------
(* The layout, for c = [align, users, idlen, cool, bits].  The gaps are those of the BBS's struct. *)
UpTo(n, a) == IF a = 0 \/ n % a = 0 THEN n ELSE n + a - (n % a)
ShmPos(c) ==
  LET id == c.idlen + 1
      userid == 8
      next == UpTo(userid + c.users * id + id, c.align)
      money == next + 4 * c.users + 4
      cool == money + 4 * c.users + 4
      hash == IF c.cool = 1 THEN cool + 4 * c.users + 4 ELSE cool + 4
      number == hash + 4 * (2 ^ c.bits) + 4
  IN [version |-> 0, size |-> 4, userid |-> userid, next |-> next, money |-> money, hash |-> hash, number |-> number,
      loaded |-> number + 4, info |-> number + 8, end |-> number + 8 + Info.size * c.users]

ShmGet(c, seg, what, u) ==
  LET p == ShmPos(c)
  IN CASE what = "version" -> U32At(Range(seg, p.version, 4), 1)
       [] what = "userid" -> CStr(Range(seg, p.userid + u * (c.idlen + 1), c.idlen + 1), c.idlen + 1)
       [] what = "money" -> LET v == U32At(Range(seg, p.money + 4 * u, 4), 1) IN <<Signed(v[1], 32768), v[2]>>
       [] what = "info" -> Read("info", Range(seg, p.info + Info.size * u, Info.size))

-----------------------------------------------------------------------------
ShmNm(e) == e.kind \o ":" \o e.n
Live(st) == {st.names[n] : n \in DOMAIN st.names} \cup {st.hs[h].seg : h \in {x \in DOMAIN st.hs : st.hs[x].open = 1}}
Fresh(st) == CHOOSE s \in {"s1", "s2", "s3", "s4", "s5", "s6", "s7", "s8", "s9"} : s \notin Live(st)
\* what nobody can reach is forgotten
Tidy(st) == [st EXCEPT !.segs = [s \in DOMAIN st.segs \cap Live(st) |-> st.segs[s]]]
Out(r, obs, st) == [r |-> r, obs |-> obs, st |-> Tidy(st)]
Err(st) == {Out("err", Empty, st)}
Attach(st, e, seg, n, cfg) == Out("ok", [len |-> n], [st EXCEPT !.hs = Put(@, e.hd, [seg |-> seg, len |-> n, open |-> 1, cfg |-> cfg])])
NoCfg == [align |-> 1, users |-> 0, idlen |-> 0, cool |-> 0, bits |-> 0]

ShmOpen(st, e) ==
  LET n == ShmNm(e)
  IN IF n \notin DOMAIN st.names THEN Err(st)
     ELSE IF (IF "via" \in DOMAIN e THEN e.via = "bad" ELSE FALSE) \/ st.segs[st.names[n]].size = 0 THEN Err(st)
     ELSE {Attach(st, e, st.names[n], st.segs[st.names[n]].size, IF "cfg" \in DOMAIN e THEN e.cfg ELSE NoCfg)}

ShmCreate(st, e) ==
  LET n == ShmNm(e)
      new == IF n \in DOMAIN st.names THEN st.names[n] ELSE Fresh(st)
      with(c) == [st EXCEPT !.names = Put(@, n, new), !.segs = Put(@, new, c)]
      zero == Content(e.size, <<>>)
  IN IF e.where = "nodir" THEN Err(st)
     ELSE IF e.kind = "file"
     \* a file that was there is emptied; if the size is impossible it is left empty, or there is none
     THEN IF e.size <= 0 THEN Err(with(Content(0, <<>>))) \cup Err([st EXCEPT !.names = Drop(@, n)])
          ELSE {Attach(with(zero), e, new, e.size, NoCfg)}
     ELSE IF e.size <= 0 THEN Err(st) \cup (IF e.size = 0 THEN ShmOpen(st, e) ELSE {})    \* 0 asks for what is there
     ELSE IF n \notin DOMAIN st.names THEN {Attach(with(zero), e, new, e.size, NoCfg)}
     \* a segment of that key is there: it is as it was
     ELSE IF e.size > st.segs[new].size THEN Err(st)
     ELSE {Attach(st, e, new, e.size, NoCfg), Attach(st, e, new, st.segs[new].size, NoCfg)} \cup Err(st)

H(st, e) == st.hs[e.hd]
SegOf(st, e) == st.segs[H(st, e).seg]
ShmOutcomes(st, e) ==
  CASE e.op = "shmcreate" -> ShmCreate(st, e)
    [] e.op = "shmopen" -> ShmOpen(st, e)
    [] e.op = "shmput" ->     \* a segment is filled from elsewhere
         LET n == ShmNm(e)
             s == IF n \in DOMAIN st.names THEN st.names[n] ELSE Fresh(st)
         IN {Out("ok", Empty, [st EXCEPT !.names = Put(@, n, s), !.segs = Put(@, s, Content(e.size, e.ps))])}
    [] e.op = "shmwrite" ->
         LET c == SegOf(st, e)
         IN {Out("ok", Empty, [st EXCEPT !.segs = Put(@, H(st, e).seg, Content(c.size, Append(c.ps, [at |-> e.at, x |-> e.x])))])}
    [] e.op = "shmread" -> {Out("ok", [c |-> Range(SegOf(st, e), 0, H(st, e).len)], st)}
    [] e.op = "shmlook" ->    \* what is there, seen from elsewhere
         LET n == ShmNm(e) IN IF n \notin DOMAIN st.names THEN {Out("ok", [c |-> "none"], st)}
                              ELSE LET c == st.segs[st.names[n]] IN {Out("ok", [c |-> Range(c, 0, c.size)], st)}
    [] e.op = "shmclose" ->
         IF H(st, e).open = 1 THEN {Out("ok", Empty, [st EXCEPT !.hs[e.hd] = [seg |-> "", len |-> 0, open |-> 0, cfg |-> NoCfg]])}
         ELSE {Out("ok", Empty, st), Out("err", Empty, st)}
    [] e.op = "shmremove" ->
         IF ShmNm(e) \in DOMAIN st.names THEN {Out("ok", Empty, [st EXCEPT !.names = Drop(@, ShmNm(e))])} ELSE Err(st)
    [] e.op = "shmget" ->
         LET h == H(st, e)
             v == ShmGet(h.cfg, SegOf(st, e), e.what, e.u)
         IN {Out("ok", [v |-> v], IF "slot" \in DOMAIN e THEN [st EXCEPT !.kept = Put(@, e.slot, v)] ELSE st)}
    [] e.op = "shmkept" -> {Out("ok", [v |-> st.kept[e.slot]], st)}
    [] e.op = "shmgc" -> {Out("ok", Empty, st)}
    \* the handle is forgotten without a Close: its descriptor may stay open for any time
    [] e.op = "shmdrop" -> {Out("ok", Empty, st)}

\* the descriptors which the handles need at most
FdLimit(st) == Cardinality({h \in DOMAIN st.hs : st.hs[h].open = 1})
=============================================================================
