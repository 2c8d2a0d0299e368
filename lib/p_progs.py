"""C18, C22: the programs of the repository, run as they are."""
import os
from hist import *
from gen import BIG5
from p_files import Rec, SALT, hashes, near, near_hash, some_pw, values


# ---------------------------------------------------------------------------------------- the server

def account(r, id_, pw):
    """a record with this name and field of the hash (bytes)"""
    g = Rec(r, "user")
    raw = bytearray(g.raw())
    for f, o, w, k in g.fs:
        if f == "userid":
            raw[o:o + w] = fixed(id_ if len(id_) >= w else id_ + b"\0" + bytes(r.getrandbits(8) for _ in range(w - len(id_) - 1)), w)
        elif f == "password":
            raw[o:o + w] = fixed(pw, w)
        elif f in ("nickname", "realname") and r.random() < 0.5:
            raw[o:o + w] = fixed(G(r).big5(r.randint(0, w)), w)
    return bytes(raw).hex()


def ask(r, u, p, what="token", m=None, via=None):
    q = dict(what=what, m=m or ("POST" if what == "token" else "GET"), u=u.hex(), p=p.hex())
    if what == "token":
        q["via"] = via or r.choice(["form", "form", "form", "query", "split"])
        if r.random() < 0.2:
            q["auth"] = r.choice(["Basic c3lzb3A6MTIzMTIz", "bearer x", "", "Bearer"])
        if via == "nouser":
            q["u"] = ""
        if via == "nopw":
            q["p"] = ""
    elif r.random() < 0.5:             # "last" is the token which this server granted last
        q["auth"] = r.choice(["Bearer x", "Bearer a.b.c", "Bearer", "Bearer ", "x", "Bearer x y", "Basic c3lzb3A6MTIzMTIz", "bearer last", "Bearer last", "Bearer last", "last"])
    return q


def srv(recs, brds=(), **kw):
    """a server starts; the kinds of its files: "" there, missing, dir; what is behind their last whole record"""
    return dict(dict(op="srv", recs=recs, brds=list(brds), pwkind="", brdkind="", pwtail="", brdtail=""), **kw)


def near_id(r, ids):
    i = r.choice(ids) if ids else b"x"
    k = r.choice(["same", "same", "case", "cut", "more", "nul", "space", "one", "empty", "other"])
    if k == "case":
        return i.swapcase()
    if k == "cut":
        return i[:-1]
    if k == "more":
        return i + r.choice([b"x", b"0", i])
    if k == "nul":
        return i + b"\0"
    if k == "space":
        return r.choice([b" " + i, i + b" "])
    if k == "one" and i:
        b = bytearray(i)
        b[r.randrange(len(b))] = r.choice(b"aZ09")
        return bytes(b)
    if k == "empty":
        return b""
    if k == "other":
        return r.choice([b"guest", b"SYSOP", b"root", b"\0", b"new", b"a" * 14, b"%", b"*", b"' or 1=1", "使用者".encode(), b"../SYSOP"])
    return i


ALNUM = b"0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"


def server_history(r, k, pairs, n, late=False):
    """pairs: (password, hash)"""
    recs, ids, known = [], [], []
    for _ in range(r.choice([0, 1, 2, 3, 6, 9])):
        pw, h = r.choice(pairs)
        c = r.random()
        if c < 0.2:                      # a slot that was an account once, or never
            recs.append(account(r, b"", r.choice([h, h, bytes(14)])))
            known.append((b"", pw))
            continue
        i = bytes(r.choice(ALNUM) for _ in range(r.choice([1, 2, 4, 8, 11, 12, 12, 13])))
        if ids and r.random() < 0.3:
            i = near_id(r, ids)
            if not i or len(i) > 13 or any(x not in ALNUM for x in i):
                continue
        if i in ids:
            continue
        ids.append(i)
        known.append((i, pw))
        recs.append(account(r, i, near_hash(r, h) if r.random() < 0.3 else h + b"\0"))
    qs = []
    for _ in range(n):
        c = r.random()
        u, pw = r.choice(known) if known else (b"SYSOP", b"123123")
        if c < 0.25:
            qs.append(ask(r, u, pw))
        elif c < 0.4:
            qs.append(ask(r, u, near(r, pw)))
        elif c < 0.5:
            qs.append(ask(r, u, r.choice(known)[1] if known else b""))
        elif c < 0.6:
            qs.append(ask(r, near_id(r, ids), pw))
        elif c < 0.65:
            qs.append(ask(r, u, pw, via=r.choice(["nouser", "nopw"])))
        elif c < 0.68 and known:       # one user in the body of the request and another in its query
            u2, pw2 = r.choice(known) if r.random() < 0.8 else (near_id(r, ids), near(r, pw))
            if r.random() < 0.5:
                u, pw, u2, pw2 = u2, pw2, u, pw
            qs.append(dict(ask(r, u, pw, via=r.choice(["both", "both", "two"])), u2=u2.hex(), p2=r.choice([pw2, pw2, b""]).hex()))
        elif c < 0.72:
            qs.append(ask(r, u, pw, m=r.choice(["GET", "PUT", "DELETE", "HEAD"]), via="query"))
        else:
            i = near_id(r, ids)
            if any(x not in ALNUM for x in i) or not i:
                i = r.choice(ids) if ids else b"nobody"
            qs.append(ask(r, i, b"", what="info", m=r.choice(["GET"] * 9 + ["POST"])))
    calls = [srv(recs, [Rec(r, "board").raw().hex() for _ in range(r.choice([0, 0, 1, 3]))])]
    a = r.randint(0, len(qs))
    for part in (qs[:a], qs[a:]):
        if part:
            calls.append(dict(op="reqs", reqs=part, conc=r.choice([0, 1])))
    if late:                               # the same requests again, later
        calls[-1]["wait"] = 1100
        calls.append(dict(calls[-1], wait=r.choice([1100, 2100]), conc=0))
    return {"id": "s%d" % k, "kind": "seq", "calls": calls, "opt": {"timeout_ms": 60000}}


def server_seams(r, k, pairs):
    """an account's name and password, written one after the other, are also another's name and a
    password that is not the other's"""
    (pw1, h1), (pw2, h2) = r.sample(pairs, 2)
    cut = r.randint(1, min(5, len(pw1)))
    base = bytes(r.choice(ALNUM) for _ in range(r.randint(1, 7)))
    id1, id2 = base, base + pw1[:cut]
    recs = [account(r, id1, h1 + b"\0"), account(r, id2, h2 + b"\0")]
    if r.random() < 0.5:
        recs.reverse()
    qs = [ask(r, id1, pw1), ask(r, id2, pw1[cut:]), ask(r, id2, pw2), ask(r, id1, pw1[:cut] + pw2), ask(r, id1, pw2), ask(r, id2, pw1), ask(r, id1, pw1)]
    for _ in range(r.randint(0, 3)):
        qs.append(r.choice(qs))
    if r.random() < 0.3:
        qs = qs[1:3] + qs
    return {"id": "z%d" % k, "kind": "seq", "calls": [srv(recs), dict(op="reqs", reqs=qs, conc=0)], "opt": {"timeout_ms": 60000}}


def c18(ctx):
    r = ctx.rng
    os.environ["VERIF_SERVERLET"] = ctx.build_cmd("./serverlet", "serverlet")
    # every population and request of the model
    by = {}
    for v in values(ctx, "TokenModel", "TokenModel_%s.cfg" % ctx.pick("q", "t")):
        by.setdefault(tuple((a["id"], a["pw"]) for a in v["acc"]), []).append(v["q"])
    scripts = []
    todo = sorted(by.items())
    if not ctx.quick:
        todo = r.sample(todo, min(len(todo), 800))
    for k, (acc, qs) in enumerate(todo):
        r.shuffle(qs)
        reqs = [dict(q, what="token", via=r.choice(["form", "query", "split"])) for q in qs]
        reqs += [dict(m="GET", what="info", u=i, p="") for i, _ in acc if i] + [dict(m="GET", what="info", u=b"nobody".hex(), p="")]
        calls = [srv([account(r, bytes.fromhex(i), bytes.fromhex(p)) for i, p in acc]),
                 dict(op="reqs", reqs=reqs, conc=k % 2)]
        scripts.append({"id": "m%d" % k, "kind": "seq", "calls": calls, "opt": {"timeout_ms": 60000}})
    pairs = hashes(ctx, [(some_pw(r), bytes([r.choice(SALT), r.choice(SALT)])) for _ in range(ctx.pick(60, 400))])
    for k in range(ctx.pick(60, 800)):
        scripts.append(server_history(r, k, pairs, ctx.pick(10, 14), late=k % 12 == 0))
    seams = [(bytes(r.choice(ALNUM) for _ in range(r.randint(2, 8))), bytes([r.choice(SALT), r.choice(SALT)])) for _ in range(ctx.pick(16, 60))]
    seams = hashes(ctx, seams)
    for k in range(ctx.pick(12, 150)):
        scripts.append(server_seams(r, k, seams))
    hist = ctx.drive(scripts, procs=1)
    ctx.extra["requests"] = sum(len(e.get("reqs", [])) for h in hist for e in h["ev"])
    ctx.check("TokenTrace", hist, "requests to the server", scripts=scripts)
    return ctx.finish()


METHODS = ["GET", "GET", "GET", "POST", "HEAD", "PUT", "DELETE", "OPTIONS", "PATCH", "TRACE", "FOO"]


def raw_request(r, ids):
    """anything that may be sent to the server, not always a request"""
    seg = lambda: r.choice([b"v1", b"users", b"boards", b"classes", b"token", b"information", b"favorites", b"..", b".", b"", b"%00", b"%2e%2e", b"%2f", b"%ff",
                            b"%E4%BD%BF", b"*", b"x" * r.choice([1, 300, 1500]), r.choice(ids) if ids else b"SYSOP", bytes(r.choice(ALNUM) for _ in range(3))])
    k = r.random()
    if k < 0.5:
        path = b"/" + b"/".join(seg() for _ in range(r.randint(0, 6)))
    elif k < 0.8:
        path = r.choice([b"/v1/users/", b"/v1/users", b"/v1/users//", b"/v1/users/" + seg() + b"/", b"/v1/users/" + seg() + b"/" + seg() + b"/" + seg(),
                         b"/v1/boards/", b"/v1/classes", b"/v1/classes/" + seg(), b"/v1/token/", b"/v1/token?username=%ZZ", b"/v1/users/?x", b"/v1/users/a?b/c/d"])
    else:
        path = r.choice([b"*", b"http://other/v1/boards", b"/%", b"/%g0", b"/v1/boards#x", b"//", b"/v1/../v1/boards", b"?", b"", b"v1/boards"])
    m = r.choice(METHODS)
    hs = [b"Host: " + r.choice([b"h", b"127.0.0.1:8083", b""])]
    if r.random() < 0.4:
        hs.append(b"Authorization: " + r.choice([b"", b"Bearer", b"Bearer ", b"Bearer a.b.c", b"Bearer  x", b"\x01", b"bearer " + b"y" * 1000]))
    body = b""
    if r.random() < 0.5:
        ct = r.choice([b"application/x-www-form-urlencoded", b"multipart/form-data", b"multipart/form-data; boundary=b", b"application/json", b";", b"text/plain; x", b""])
        body = r.choice([b"", b"username=%", b"username=%ZZ&password", b"&&==&", b"username", b"{}", b"--b\r\n", b"--b--", b"username=a;password=b", bytes(r.getrandbits(8) for _ in range(40)), b"a=" + b"b" * 700])
        hs += [b"Content-Type: " + ct, b"Content-Length: %d" % (len(body) if r.random() < 0.9 else 0)]
    hs.append(b"Connection: close")
    return dict(what="raw", m=m, u="", p="", req=(m.encode() + b" " + path + b" HTTP/1.1\r\n" + b"\r\n".join(hs) + b"\r\n\r\n" + body).hex())


def routes_history(r, k, n):
    ids, recs = [], []
    for _ in range(r.choice([0, 1, 2, 5])):
        i = bytes(r.choice(ALNUM) for _ in range(r.choice([1, 5, 12])))
        if i not in ids:
            ids.append(i)
            recs.append(account(r, i, b"\0" * 14))
    brds = [Rec(r, "board").raw() for _ in range(r.choice([0, 1, 2, 3, 7, 40 if k % 10 == 0 else 4]))]
    if len(brds) > 2 and r.random() < 0.3:      # the same board twice, an empty slot
        brds[1] = brds[0]
        brds[2] = bytes(256)
    kw = {}
    c = r.random()
    if c < 0.15:
        kw["brdkind"] = r.choice(["missing", "dir"])
    elif c < 0.25:
        kw["brdtail"] = Rec(r, "board").raw()[:r.choice([13, 80, 128, 255])].hex()
    c = r.random()
    if c < 0.15:
        kw["pwkind"] = r.choice(["missing", "dir"])
    elif c < 0.2:
        kw["pwtail"] = bytes.fromhex(recs[0])[:r.choice([1, 17, 511])].hex() if recs else "00"
    qs = []
    for _ in range(n):
        c = r.random()
        m = r.choice(["GET"] * 9 + METHODS)
        u = near_id(r, ids) or b"x"
        u = percent(b"x" if set(u) & set(b"./") else u)      # a path with .. in it is somebody else's
        if c < 0.3:
            qs.append(dict(m=m, what="boards", u="", p="", path="/v1/boards" + r.choice(["", "", "?", "?board=1", "?username=x&password=y"])))
        elif c < 0.4:
            qs.append(dict(m=m, what="soon", u="", p="", path=r.choice(["/v1/classes/", "/v1/classes/1", "/v1/classes/" + u, "/v1/users/%s/favorites" % u])))
        elif c < 0.5:
            i = r.choice(["x", "informatio", "informations", "Information", "favorite", "%20information", "articles", "0"])
            qs.append(dict(m=m, what="unknown", u="", p="", path=r.choice(["/v1/users/%s/%s" % (u, i), "/v1/users/%s/%s/%s" % (u, i, r.choice(["information", "favorites", "x", ""])), "/v1/users/" + u, "/v1/users/", "/v1/user", "/v2/boards", "/", "/v1"])))
        elif c < 0.6 and ids:
            qs.append(ask(r, r.choice(ids), b"", what="info", m=m))
        else:
            qs.append(raw_request(r, ids))
    a = r.randint(0, len(qs))
    calls = [srv(recs, [b.hex() for b in brds], **kw)]
    for part in (qs[:a], qs[a:]):
        if part:
            calls.append(dict(op="reqs", reqs=part, conc=r.choice([0, 1])))
    boards = dict(m="GET", what="boards", u="", p="", path="/v1/boards")
    if k % 6 == 0:
        calls.append(dict(op="hammer", reps=150, reqs=([ask(r, i, b"", what="info", m="GET") for i in ids] * 4 + [boards] * 2)[:8]))
    calls.append(dict(op="reqs", reqs=[boards], conc=0))
    return {"id": "r%d" % k, "kind": "seq", "calls": calls, "opt": {"timeout_ms": 60000}}


def percent(b):
    return "".join(chr(x) if x in ALNUM else "%%%02X" % x for x in b)


def c23(ctx):
    r = ctx.rng
    os.environ["VERIF_SERVERLET"] = ctx.build_cmd("./serverlet", "serverlet")
    scripts = [routes_history(r, k, ctx.pick(16, 20)) for k in range(ctx.pick(120, 1500))]
    hist = ctx.drive(scripts, procs=1)
    ctx.extra["requests"] = sum(len(e.get("reqs", [])) for h in hist for e in h["ev"])
    ctx.check("TokenTrace", hist, "requests to the server", scripts=scripts)
    return ctx.finish()


# ---------------------------------------------------------------------------------------- the tool

def big5_text(r, lo, hi, lines=False):
    """text which Big5 can express, of up to hi bytes"""
    g = G(r)
    out = b""
    for _ in range(r.randint(0, 6)):
        k = r.random()
        out += (g.big5(2 * r.randint(1, 5)) if k < 0.4 else g.ascii(r.randint(0, 8)).encode() if k < 0.8 else
                r.choice([b"\n", b"\n\n", b"\r\n", b"\x1b[1;31m", b"\t", b"$HOME `x` %s %d \\n"]) if lines else
                r.choice([b" ", b" ", b"100%", b"%s", b"%d %v", b"%%", b"%!", b"\\n", b"'\"", b"<&>", b"--", b"$x", b"*"]))
    if len(out) > hi:
        out = out[:hi]
        try:
            out.decode("ascii")
        except UnicodeDecodeError:          # not into a character
            out = g.big5(hi)
    while len(out) < lo:
        out += b"x"
    return out


BIG5SET = frozenset(BIG5)


def expressible(b):
    """the same bytes with a blank for each which is not Big5"""
    out, i = b"", 0
    while i < len(b):
        if b[i] < 128:
            out += b[i:i + 1]
        elif i + 1 < len(b) and (b[i] << 8 | b[i + 1]) in BIG5SET:
            out += b[i:i + 2]
            i += 1
        else:
            out += b" "
        i += 1
    return out


class Tool:
    def __init__(self, r, home="h0"):
        self.r, self.home = r, home
        self.form = r.choice(["", "one", "two", "rel"])

    def run(self, sub, *opts, **kw):
        a = [sub.encode()]
        opts = list(opts)
        self.r.shuffle(opts)
        for k, v in opts:
            if self.r.random() < 0.1:
                a.append(self.r.choice([b"x", b"-y", b"", b"Test"]))
            if self.r.random() < 0.05:
                a += [b"--" + k, b"wrong"]          # the last one counts
            a += [b"--" + k, v]
        if self.r.random() < 0.05:
            a.append(self.r.choice([b"--dangling", b"rest", b"--"]))
        return self.raw(a, **kw)

    def raw(self, a, **kw):
        return dict(op="cli", home=kw.pop("home", self.home), form=self.form, tz=self.r.choice(["UTC", "Asia/Taipei", ""]), a=[x.hex() for x in a], **kw)


def new_article(t, r, b, k):
    o = [(b"board", b), (b"owner", G(r).ascii(r.choice([0, 1, 5, 12, 13])).encode()), (b"date", r.choice([b"10/12", b" 1/02", b"", b"12/31"])),
         (b"title", big5_text(r, 0, 60))]
    x = r.random()
    pre = []
    if x < 0.6:
        o.append((b"content", big5_text(r, 0, 400, True)))
    if x > 0.5:
        f = "in%d" % k
        if r.random() < 0.9:
            pre.append(dict(op="cfile", path=f, c=(big5_text(r, 0, 400, True) * r.choice([1, 1, 1, 300])).hex()))
        o.append((b"content_file", f.encode()))
    if r.random() < 0.1:
        o.pop(r.randrange(len(o)))
    return pre, o


def tool_home(r, w):
    """two boards, accounts, some articles with comments"""
    from comm import Lines
    g, L = w.g, Lines(r)
    u = Rec(r, "user")
    if r.random() < 0.9:
        w.pre_brd(0, w.boards[0], 0.15)
    if r.random() < 0.9:
        recs = b"".join(u.raw() for _ in range(r.choice([0, 1, 3, 7])))
        w.calls.append(dict(op="put", path="h0/.PASSWDS", kind="val", c=recs.hex(), anc=anc("h0/.PASSWDS", False)))
    for b in w.boards[0]:
        es = []
        for j in range(r.choice([0, 1, 2, 4])):
            e = g.stored()
            e["fn"] = hx("M.140000000%d.A.000" % j)
            e["own"] = hx(r.choice(["alice", "bob", "twelveletter", "b", "SYSOP", ""]))
            e["title"] = big5_text(r, 0, 64).hex()
            es.append(e)
            text = b"".join(L.comment(user=r.choice(["alice", "bob"])) + b"\n" if r.random() < 0.6 else big5_text(r, 0, 60) + b"\n" for _ in range(r.choice([0, 1, 3])))
            w.calls.append(put_text(board_dir("h0", b) + "/M.140000000%d.A.000" % j, expressible(text).hex()))
        if es and r.random() < 0.1:
            r.choice(es)["fn"] = ""
        if es or r.random() < 0.5:
            w.calls.append(put_list(board_dir("h0", b) + "/.DIR", es))
            w.len[0, b] = len(es)


def tool_history(r, k):
    w = World(r, boards=2, users=1)
    w.open(0, 0)
    tool_home(r, w)
    t = Tool(r)
    bs = [x.encode() for x in w.boards[0]]
    for j in range(r.randint(4, 12)):
        b = r.choice(bs) if r.random() < 0.9 else r.choice([b"Missing", b""])
        x = r.random()
        if x < 0.3:
            pre, o = new_article(t, r, b, j)
            w.calls += pre
            w.calls.append(t.run("add_board_article", *o))
            if r.random() < 0.7:
                w.calls.append(t.run("show_board_article_list", (b"board", b)))
            else:
                w.add(op="list", h=0, b=b.decode(), via="db")
            w.calls.append(dict(op="clilast", b=b.hex(), home="h0", form=t.form))
        elif x < 0.4:
            o = [(b"board_id", G(r).ascii(r.choice([1, 5, 12])).encode()), (b"title", big5_text(r, 0, 48))]
            if r.random() < 0.1:
                o.pop(r.randrange(2))
            w.calls.append(t.run("add_board", *o))
            w.calls.append(t.run("show_board_list"))
            w.add(op="boards", h=0)
        elif x < 0.48:
            w.calls.append(t.run("show_board_list"))
        elif x < 0.56:
            w.calls.append(t.run("show_user_list"))
        elif x < 0.66:
            w.calls.append(t.run("show_user_article_list", (b"user_id", r.choice([b"alice", b"bob", b"b", b"SYSOP", b"nobody", b"twelveletter"]))))
        elif x < 0.74:
            w.calls.append(t.run("show_user_comment_list", (b"user_id", r.choice([b"alice", b"bob", b"nobody"])), (b"board", b)))
        elif x < 0.82:
            w.calls.append(t.run("show_board_article_list", (b"board", b)))
        elif x < 0.9:
            w.calls.append(t.run("show_board_article", (b"board", b), (b"filename", r.choice([b"M.1400000000.A.000", b"M.1400000001.A.000", b"none"]))))
        elif x < 0.93:
            w.calls.append(t.run(r.choice(["show_board_list", "add_board_article", "show_user_list", "add_board"]), (b"board", b), (b"board_id", b"x"), (b"title", b"x"), home="nohome"))
        elif x < 0.95:
            w.calls.append(t.run("show_board_list", driver=r.choice(["nosuch", "pttbbs", ""])))
        else:
            w.run(1, dict(add=1, list=1, write=1, addboard=1, rmboard=1, upd=1))
    return w.script("t%d" % k, snap=1)


def tool_at_once(r, k):
    """several runs at the same time"""
    w = World(r, boards=2, users=1)
    w.open(0, 0)
    tool_home(r, w)
    t = Tool(r)
    bs = [x.encode() for x in w.boards[0]]
    es = []
    for j in range(r.choice([2, 3, 4])):
        if r.random() < 0.8:
            pre, o = new_article(t, r, r.choice(bs), j)
            w.calls += pre
            es.append(t.run("add_board_article", *o))
        else:
            es.append(t.run("add_board", (b"board_id", b"n%d" % j), (b"title", big5_text(r, 0, 48))))
    w.calls.append(dict(op="clis", es=es))
    for b in w.boards[0]:
        w.add(op="list", h=0, b=b, via="db")
        w.calls.append(dict(op="clilast", b=hx(b), home="h0", form=""))
    w.add(op="boards", h=0)
    return w.script("c%d" % k)


def c22(ctx):
    r = ctx.rng
    os.environ["VERIF_BBSTOOL"] = ctx.build_cmd("./cmd/bbstool", "bbstool")
    scripts = []
    todo = [v["a"] for v in values(ctx, "CliModel", "CliModel_%s.cfg" % ctx.pick("q", "t"))]
    r.shuffle(todo)
    for k in range(0, len(todo), 30):
        w = World(r, boards=1, users=1)
        w.boards[0] = ["Test"]
        w.calls.append(mkdir(board_dir("h0", "Test")))
        w.len[0, "Test"], w.arts[0, "Test"] = 0, []
        w.open(0, 0)
        tool_home(r, w)
        t = Tool(r)
        w.calls += [t.raw([bytes.fromhex(x) for x in a]) for a in todo[k:k + 30]]
        w.add(op="boards", h=0)
        scripts.append(w.script("a%d" % k, snap=1))
    scripts += [tool_history(r, k) for k in range(ctx.pick(250, 3000))]
    scripts += [tool_at_once(r, k) for k in range(ctx.pick(60, 800))]
    hist = ctx.drive(scripts)
    ctx.extra["runs"] = sum(len(e.get("es", [1])) for h in hist for e in h["ev"] if e["op"] in ("cli", "clis"))
    ctx.check("CliTrace", hist, "runs of the tool", scripts=scripts)
    return ctx.finish()


CHECKS = {"C18": c18, "C23": c23, "C22": c22}
