------------------------------- MODULE Token -------------------------------
(* The sample server: accounts, requests for a token, requests for information.

   st.acc is the list of accounts the server has loaded, each [id, pw, v]: the name, the 14 bytes of the
   field of the hash, the whole record.  Slots without a name are no accounts.  st.brd are the boards.

   A request is [m, what, u, p]: method, "token" or "info", and hexadecimal name and password.
   What the server answers is its kind and, for a token and for information, what is in it. *)
EXTENDS Layout, DesCrypt

Account(raw) == LET v == Read("user", raw)
                IN [id |-> v.userid, v |-> v,
                    pw |-> LET x == SelectSeq(User.fs, LAMBDA f : f.f = "password")[1] IN HSub(raw, x.o + 1, x.o + x.w)]

Matching(acc, u) == IF u = "" THEN {} ELSE {i \in DOMAIN acc : acc[i].id = u}

\* the answers to a request for a token, which gives the name u and the password p
GrantKinds(acc, u, p) ==
  LET m == Matching(acc, u)
  IN IF m = {} THEN {"error"}
     ELSE UNION {{IF v = "ok" THEN "token" ELSE "error" : v \in Verdicts(acc[i].pw, p)} : i \in m}
\* a request may give two names and two passwords; the server uses one of each, for everything
GivenNames(q) == IF "u2" \in DOMAIN q THEN {q.u, q.u2} ELSE {q.u}
GivenWords(q) == IF "p2" \in DOMAIN q THEN {q.p, q.p2} ELSE {q.p}
TokenKinds(acc, q) ==
  IF q.m # "POST" THEN {"none", "error"}
  ELSE UNION {GrantKinds(acc, u, p) : u \in GivenNames(q), p \in GivenWords(q)}

\* a token names the user, is signed with the server's key and is good for thirty minutes from its issue
Lifetime == 1800
TokenOK(acc, q, a) ==
                 /\ a.alg = "ES256" /\ a.sig = 1
                 /\ \E u \in GivenNames(q), p \in GivenWords(q) : a.sub = u /\ "token" \in GrantKinds(acc, u, p)
                 \* a.from and a.to: seconds from the sending of the request, and to the arrival of the answer
                 /\ a.from - Lifetime >= 0 /\ a.to + Lifetime >= 0

InfoFields == [user_id |-> "userid", nickname |-> "nickname", realname |-> "realname", number_of_login_days |-> "logindays",
               number_of_posts |-> "posts", money |-> "money", last_login_time |-> "lastlogin",
               last_login_ipv4 |-> "lasthost", last_login_ip |-> "lasthost"]
InfoOK(acc, q, a) == \E i \in Matching(acc, q.u) : \A f \in DOMAIN InfoFields : f \in DOMAIN a.v /\ a.v[f] = acc[i].v[InfoFields[f]]

\* the elements of the list of boards
BoardFields == [BrdName |-> "brdname", Brdattr |-> "brdattr", VoteLimitPosts |-> "votelimitposts", VoteLimitLogins |-> "votelimitlogins",
                BUpdate |-> "bupdate", PostLimitPosts |-> "postlimitposts", PostLimitLogins |-> "postlimitlogins", BVote |-> "bvote",
                VTime |-> "vtime", Level |-> "level", PermReload |-> "permreload", Gid |-> "gid", Next |-> "next",
                FirstChild |-> "firstchild", Parent |-> "parent", ChildCount |-> "childcount", Nuser |-> "nuser", PostExpire |-> "postexpire",
                EndGamble |-> "endgamble", FastRecommendPause |-> "fastpause", VoteLimitBadPost |-> "votelimitbad",
                PostLimitBadPost |-> "postlimitbad", SRexpire |-> "srexpire"]
BoardOK(v, x) == \A f \in DOMAIN BoardFields : f \in DOMAIN x /\ x[f] = v[BoardFields[f]]

(* What may be asked: a token, a user's information, the list of boards; "soon" what is not there yet,
   "unknown" what is nothing, "raw" anything else, which is answered somehow. *)
AnswerOK(s, q, a) ==
  CASE q.what = "token" -> /\ a.k \in TokenKinds(s.acc, q)
                           /\ (a.k = "token" => TokenOK(s.acc, q, a))
    [] q.what = "raw" -> /\ a.k \in {"none", "error", "boards", "info"}
                         /\ (a.k = "info" => "user_id" \in DOMAIN a.v /\ InfoOK(s.acc, [u |-> a.v.user_id], a))
    [] q.what # "token" /\ q.what # "raw" /\ q.m # "GET" -> a.k \in {"none", "error"}
    [] q.what = "info" /\ q.m = "GET" -> IF Matching(s.acc, q.u) = {} THEN a.k = "error"
                                        ELSE a.k = "info" /\ InfoOK(s.acc, q, a)
    [] q.what = "boards" /\ q.m = "GET" -> /\ a.k = "boards" /\ Len(a.bs) = Len(s.brd)
                                          /\ \A i \in DOMAIN s.brd : BoardOK(s.brd[i], a.bs[i])
    [] q.what = "soon" /\ q.m = "GET" -> a.k = "error" /\ a.status = 501
    [] q.what = "unknown" /\ q.m = "GET" -> a.k = "error" /\ a.status = 404

\* what a server has loaded from a file: kind "" it is there, with t behind its last whole record
Loaded(n, kind, rs, t) ==
  IF kind # "" THEN {<<>>}
  ELSE {rs} \cup (IF t = "" THEN {} ELSE {<<>>, Append(rs, HexText(t, LayoutOf(n).size))})

\* the server starts; each answer is by itself, whatever was asked before or is asked at the same time
ServerStep(st, e, st2) ==
  CASE e.op = "srv" -> /\ e.r = "ok" /\ e.up = 1
                       /\ \E as \in Loaded("user", e.pwkind, e.recs, e.pwtail), bs \in Loaded("board", e.brdkind, e.brds, e.brdtail) :
                            st2 = TLCEval([acc |-> [i \in DOMAIN as |-> Account(as[i])], brd |-> [i \in DOMAIN bs |-> Read("board", bs[i])]])
    [] e.op = "reqs" -> /\ e.r = "ok" /\ Len(e.rs) = Len(e.reqs)
                        /\ \A i \in DOMAIN e.reqs : AnswerOK(st, e.reqs[i], e.rs[i])
                        /\ st2 = st
=============================================================================
