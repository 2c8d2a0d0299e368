"""C17, C21: whatever is there to be read; files that stay open."""
from hist import *
import struct
import comm, p_files
from p_files import chunked, files, values

KINDS = ["none", "dir", "dirfull", "loop", "dangling", "noparent", "underfile"]
RDS = ["brd", "pwd", "dir", "tdir", "text", "ttext", "draft", "fav", "recent", "bad", "sitebad", "sess", "formosa"]
ONE = ["p.passwds", "p.board", "p.fav", "p.recent", "p.dir", "p.name", "c.fav", "c.dir", "f.users", "f.fav", "f.boards", "f.articles",
       "f.article", "f.draft", "f.bad", "f.recent", "f.sess", "f.formosa", "d.fav", "d.articles", "d.uarts", "d.ucomments"]
TWO = ["p.draft", "p.mail", "p.article", "c.draft", "c.article", "d.article", "d.bcomments", "d.comments", "d.draft", "open"]
TREES = ["p.treasures", "c.treasures", "d.treasures", "p.treasure", "c.treasure", "d.treasure"]


def probe(rd, c=b"", obj="file", **kw):
    return dict(op="probe", rd=rd, obj=obj, c=c.hex(), **kw)


def damaged(r, c):
    b = bytearray(c)
    for _ in range(r.choice([1, 2, 3, 8])):
        k = r.random()
        p = r.randrange(len(b)) if b else 0
        if k < 0.3 and b:
            b[p] = r.choice([0, 1, 2, 3, 0x7f, 0x80, 0xff, 10, 13, 0x1b, r.getrandbits(8)])
        elif k < 0.45:
            b = b[:p]
        elif k < 0.6:
            n = r.randint(1, 30)
            b[p:p + n] = bytes([r.choice([0, 255, 10, 0x1b, 0x3a])]) * r.choice([n, n, 1, 3 * n])
        elif k < 0.75:
            del b[p:p + r.randint(1, 20)]
        elif k < 0.9:
            n = r.randint(1, 40)
            q = r.randrange(len(b)) if b else 0
            b[p:p] = b[q:q + n]
        else:
            b[p:p] = bytes(r.getrandbits(8) for _ in range(r.randint(1, 12)))
    return bytes(b)


def good(r, rd):
    """a file of this kind without fault"""
    if rd in ("dir", "tdir"):
        return b"".join(p_files.Rec(r, "file").raw() for _ in range(r.randint(0, 3)))
    if rd == "brd":
        return b"".join(p_files.Rec(r, "board").raw() for _ in range(r.randint(0, 3)))
    if rd == "pwd":
        return b"".join(p_files.Rec(r, "user").raw() for _ in range(r.randint(0, 2)))
    if rd == "sess":
        return b"".join(p_files.Rec(r, "info").raw() for _ in range(r.randint(0, 2)))
    if rd == "formosa":
        return b"".join(p_files.Rec(r, "formosa").raw() for _ in range(r.randint(0, 3)))
    if rd == "fav":
        f = p_files.Fav(r)
        return b"\x23\x0d" + p_files.enc_fav(f.items(2, r.choice([0, 1, 3, 6])))
    if rd in ("bad", "sitebad", "recent"):
        return p_files.login_file(r, "recent" if rd == "recent" else "bad", r.randint(0, 5), 0)
    ls = comm.Lines(r)
    return b"\n".join(r.choice([ls.comment, ls.other, lambda: ls.comment(user="alice")])() for _ in range(r.randint(0, 8)))


def junk(r):
    k = r.random()
    n = r.choice([0, 1, 2, 3, 7, 25, 26, 127, 128, 129, 255, 256, 257, 511, 512, 513, 4095, 4096, 5000])
    if k < 0.5:
        return bytes(r.getrandbits(8) for _ in range(n))
    if k < 0.7:
        return bytes([r.choice([0, 255, 10, 32, 0x1b, 0x80, 0x3a])]) * n
    return bytes(r.choice([0, 1, 2, 3, 255]) for _ in range(n))


def large(r, thorough):
    """files in which one thing is repeated many times"""
    out = []
    n = 3000000 if thorough else 300000
    for rd, unit in [("fav", b"\0\0\0\1\2\0\1" + b"\0" * 49), ("fav", b"\xff\xff\xff\xff"), ("fav", b"\3\1\1"), ("recent", b"x"), ("bad", b"\n"), ("bad", b"-"), ("recent", b"\n"),
                     ("sitebad", b" "), ("text", b"\n"), ("text", b"\x1b["), ("text", b":"), ("text", b"\xb1\xc0 "), ("text", b"a: 10/12 13:45"), ("text", b"a: 10/12 13:45\n"),
                     ("dir", b"\0" * 128), ("brd", b"\xff" * 256), ("brd", b"/" * 256), ("pwd", b"\0" * 512), ("formosa", b"\xff" * 248), ("draft", b"x"), ("tdir", b"\xff"), ("text", b"1:" * 7 + b"/")]:
        k = max(1, n // len(unit))
        if rd == "fav" and len(unit) > 40:
            k //= 3
        for pre in (b"", b"\x23\x0d") if rd == "fav" else (b"",):
            out.append(probe(rd, unit, rep=k, pre=pre.hex(), post=r.choice([b"", b"\n", b"\0"]).hex()))
    return out


def probes(ctx, n):
    """files which are not what they should be"""
    r = ctx.rng
    calls = [probe(rd, b"abc", obj=k) for rd in RDS for k in KINDS]
    calls += [probe(rd, b"") for rd in RDS]
    for _ in range(n):
        rd = r.choice(RDS)
        k = r.random()
        calls.append(probe(rd, good(r, rd) if k < 0.1 else damaged(r, good(r, rd)) if k < 0.8 else junk(r)))
    r.shuffle(calls)
    return calls


def names(ctx, ns):
    r = ctx.rng
    calls = []
    long = [b"a" * 300, b"a/" * 3000, b"../" * 50 + b"x", "中文".encode(), b"\xff\xfe", b"test", b"alice"]
    ns = [bytes.fromhex(x) for x in ns] + long
    for f in ONE:
        calls += [dict(op="names", f=f, a=[x.hex()], t=[]) for x in ns]
    for f in TWO:
        for x in ns:
            calls += [dict(op="names", f=f, a=[p.hex() for p in a], t=[]) for a in
                      ((x, b"1"), (r.choice([b"test", b"alice"]), x), (x, x))]
    for f in TREES:
        for x in ns:
            calls += [dict(op="names", f=f, a=[p.hex() for p in a], t=[p.hex() for p in t]) for a, t in
                      (((x, b"M.1"), [b"D1"]), ((b"test", x), [b"D1"]), ((b"test", b"M.1"), [x]), ((b"test", x), []), ((x, x), [x, x, b""]))]
    for d in (b"", b"pttbbs", b"nosuch", b"\0"):
        calls += [dict(op="names", f="open", a=[d.hex(), (p + x).hex()], t=[]) for x in ns for p in (b"", b"file://", b"http://", b"file:", b"file://%", b"file://h?UTMP=")]
    r.shuffle(calls)
    return calls


def c17(ctx):
    r = ctx.rng
    vs = values(ctx, "RobustModel", "RobustModel_%s.cfg" % ctx.pick("q", "t"))
    calls = [probe(v["f"][0], bytes.fromhex(v["f"][1])) for v in vs if v["k"] == "file"]
    if len(calls) > 60000:
        calls = r.sample(calls, 60000)
    files(ctx, chunked(calls, 60, "d"), "files with one thing wrong", "RobustTrace")
    files(ctx, chunked(names(ctx, [v["f"][0] for v in vs if v["k"] == "name"]), 100, "n"), "names", "RobustTrace")
    files(ctx, chunked(probes(ctx, ctx.pick(6000, 80000)), 40, "p"), "whatever files", "RobustTrace")
    files(ctx, chunked(large(r, not ctx.quick), 4, "L", timeout_ms=60000), "large files", "RobustTrace")
    return ctx.finish()


# ---------------------------------------------------------------------------------------- open files

def everything(ctx, k):
    """a history with operations of every kind, many of which do not find what they look for"""
    r = ctx.rng
    w = World(r, homes=r.randint(1, 2), boards=r.randint(1, 3), users=2)
    g, f, ls = w.g, p_files.Fav(r), comm.Lines(r)
    u8 = p_files.Rec(r, "user")
    for h in w.homes:
        w.open(h, h)
        if r.random() < 0.8:
            w.pre_brd(h, w.boards[h] + r.sample(BOARDS, r.choice([0, 1])), 0.1)
        if r.random() < 0.7:
            w.calls.append(dict(op="put", path="h%d/.PASSWDS" % h, kind="val", c=b"".join(u8.raw() for _ in range(r.choice([0, 1, 3]))).hex() + "00" * r.choice([0, 0, 7]),
                                anc=anc("h%d/.PASSWDS" % h, False)))
        for b in w.boards[h]:
            if r.random() < 0.6:
                es = [g.stored() for _ in range(r.choice([1, 2]))]
                for e in es:
                    e["fn"], e["own"] = hx("M.1400000000.A.000"), hx(r.choice(["alice", "bob"]))
                w.calls.append(put_list(board_dir("h%d" % h, b) + "/.DIR", es))
                w.len[h, b] = len(es)
            if r.random() < 0.7:
                w.calls.append(put_text(board_dir("h%d" % h, b) + "/M.1400000000.A.000", ls.article(r.choice([0, 1, 3]), 0).hex()))
            p = "h%d/man/boards/%s/%s/D1" % (h, b[:1], b)
            if r.random() < 0.6:
                w.calls.append(put_list(p + "/.DIR", [g.stored()]))
                w.calls.append(put_text(p + "/M.1.A.0", g.content()))
        for u in w.users:
            if r.random() < 0.6:
                raw = struct.pack("<H", 3363) + p_files.enc_fav(f.tree(nb=3))
                p = user_dir("h%d" % h, u) + "/.fav"
                w.calls.append(dict(op="put", path=p, kind="val", c=(raw if r.random() < 0.7 else raw[:r.randrange(len(raw))]).hex(), anc=anc(p, False)))
    for _ in range(r.randint(8, 20)):
        x = r.random()
        hd, h, b = w.pick()
        b = b if r.random() < 0.8 else "Missing"
        if x < 0.1:
            w.add(op="tlist", h=hd, b=b, t=r.choice([["D1"], [], ["D2"]]))
        elif x < 0.2:
            w.add(op="tread", h=hd, b=b, t=r.choice([["D1"], [], ["D2"]]), f="M.1.A.0")
        elif x < 0.3:
            w.add(op="comments", h=hd, b=b, f="M.1400000000.A.000", fhex=hx("M.1400000000.A.000"))
        elif x < 0.4:
            w.add(op=r.choice(["bcomments", "ucomments"]), h=hd, b=b, u=hx(r.choice(["alice", "bob"])))
        elif x < 0.5:
            w.add(op=r.choice(["users", "fav", "fav"]), h=hd, u=r.choice(w.users + ["nobody"]))
        elif x < 0.55:
            w.add(op="add", h=hd, b="Missing", rec=g.rec(), via="db")
        elif x < 0.65:
            w.add(op=r.choice(["read", "append", "write"]), h=hd, b=b, f=r.choice(["M.1400000000.A.000", "none", ".."]), c="6162", via=r.choice(["db", "conn"]))
        elif x < 0.7:
            w.add(op="openbad", driver=r.choice(["nosuch", ""]))
        else:
            w.run(1, dict(add=2, addcopy=1, list=2, upd=2, write=2, append=2, read=2, boards=1, addboard=1, rmboard=2, wdraft=2, rdraft=2, ddraft=1, uarts=2, create=2))
    return w.script("e%d" % k, fds=1)


def taken_names(ctx, n):
    """new articles while many of the names they could have are taken"""
    r = ctx.rng
    out = []
    for k in range(n):
        w = World(r, homes=1, boards=1, users=1)
        w.open(0, 0)
        b = w.boards[0][0]
        if r.random() < 0.5:
            w.pre_brd(0, w.boards[0], 0)
        w.add(op="fill", dir=board_dir("h0", b), free=["%03X" % x for x in r.sample(range(4096), r.choice([1300, 600]))], secs=2, ahead=4, list=[])
        for _ in range(8):
            w.run(1, dict(create=1))
        w.add(op="checkfill", dir=board_dir("h0", b))
        out.append(w.script("t%d" % k, fds=1))
    return out


def read_faults(ctx, n, rds, errnos, large=True):
    """a reading during which a system call fails; first the same without a fault"""
    r = ctx.rng
    readers = dict(brd=5, pwd=2, dir=5, text=4, fav=2)
    out = []
    for k in range(n):
        for rd in rds:
            only = r.randrange(readers.get(rd, 1))
            c = good(r, rd) if r.random() < 0.7 else damaged(r, good(r, rd))
            kw = dict(c=c.hex(), only=only)
            if large and c and r.random() < 0.3:
                kw["rep"] = r.choice([2, 9, 1 + 5000 // len(c), 1 + 40000 // len(c)])
                if rd == "fav":
                    kw["rep"] = 2
            p = dict(op="probe", rd=rd, obj="file", **kw)
            out.append({"id": "R%d.%s.%d" % (k, rd, only), "kind": "fault", "pre": [p], "calls": [p], "post": [p], "opt": {"errnos": errnos}})
    return out


def store_faults(ctx, rounds, errnos):
    import p_conc
    return [dict(s, post=[]) for s in p_conc.c20_scripts(ctx, rounds, errnos)]


def cache_faults(ctx, n, errnos):
    r = ctx.rng
    out = []
    cfg = dict(align=4, users=1, idlen=12, cool=0, bits=1)
    for k in range(n):
        size = r.choice([1, 100, 5000])
        there = r.random() < 0.7
        pre = [dict(op="shmput", kind="file", n="x", size=size, ps=[dict(at=0, x="41")])] if there else []
        if r.random() < 0.3:
            pre.append(dict(op="shmcreate", kind="file", n="y", hd="z", size=7, where=""))
        c = r.choice([dict(op="shmcreate", kind="file", n="x", hd="h", size=size, where="")] +
                     [dict(op="shmopen", kind="file", n="x", hd="h", via=v) for v in ("open", "conn", "plain")] +
                     [dict(op="shmopen", kind="file", n="x", hd="h", via="conn", cfg=cfg)])
        out.append({"id": "C%d" % k, "kind": "fault", "pre": pre, "calls": [c], "post": [dict(op="shmlook", kind="file", n="x")], "opt": {"errnos": errnos}})
        pre = pre + [dict(op="shmcreate", kind="file", n="x", hd="h", size=size, where="")]
        out.append({"id": "D%d" % k, "kind": "fault", "pre": pre, "calls": [dict(op="shmclose", hd="h")], "post": [dict(op="shmlook", kind="file", n="x")], "opt": {"errnos": errnos}})
    return out


def cache_misses(ctx, n):
    """openings and closings again and again, most of which fail"""
    r = ctx.rng
    out = []
    for k in range(n):
        calls = []
        for j in range(r.randint(10, 40)):
            x = r.random()
            kind = r.choice(["file", "key"])
            nm = "x" if kind == "file" else "0"
            if x < 0.2:
                calls += [dict(op="shmcreate", kind="file", n="x", hd="h%d" % j, size=r.choice([0, -1, -5]), where=""), dict(op="shmopen", kind="file", n="x", hd="i%d" % j, via=r.choice(["open", "conn", "plain"])),
                          dict(op="shmlook", kind="file", n="x"), dict(op="shmremove", kind="file", n="x")]
            elif x < 0.4:
                calls.append(dict(op="shmopen", kind=kind, n="no" if kind == "file" else "7", hd="h%d" % j, via=r.choice(["open", "conn"])))
            elif x < 0.5:
                calls.append(dict(op="shmcreate", kind="file", n="x", hd="h%d" % j, size=3, where="nodir"))
            elif x < 0.7:
                calls.append(dict(op="shmopen", kind="file", n="x", hd="h%d" % j, via="bad", conn=r.choice(["shmkey:x", "nosuch:thing", ":", "file:", "", "shmkey:99999999999999999999", "file:/", "/"])))
            else:
                calls += [dict(op="shmcreate", kind=kind, n=nm, hd="h%d" % j, size=r.choice([1, 5000]), where="")]
                if r.random() < 0.5:
                    calls += [dict(op="shmopen", kind=kind, n=nm, hd="i%d" % j, via=r.choice(["open", "conn"])), dict(op="shmclose", hd="i%d" % j)]
                calls += [dict(op="shmclose", hd="h%d" % j), dict(op="shmremove", kind=kind, n=nm)]
        out.append({"id": "M%d" % k, "kind": "seq", "calls": calls, "opt": {}})
    return out


def c21(ctx):
    r = ctx.rng
    errnos = ["EIO", "ENOSPC", "EACCES"]
    files(ctx, [everything(ctx, k) for k in range(ctx.pick(300, 4000))], "operations of every kind", "RobustTrace")
    files(ctx, taken_names(ctx, ctx.pick(6, 30)), "names which are taken", "RobustTrace")
    files(ctx, chunked(probes(ctx, ctx.pick(1200, 12000)), 30, "p", fds=1), "whatever files", "RobustTrace")
    ns = ["", ".", "..", "/", "a", "\0", "a/b", "alice", "test"]
    calls = names(ctx, [x.encode().hex() for x in ns])
    files(ctx, chunked(r.sample(calls, min(len(calls), ctx.pick(800, 4000))), 50, "n", fds=1), "names", "RobustTrace")
    files(ctx, read_faults(ctx, ctx.pick(4, 40), RDS, ["EIO", "EACCES"]), "readings with a failing system call", "RobustTrace")
    files(ctx, store_faults(ctx, ctx.pick(2, 15), errnos), "operations with a failing system call", "RobustTrace")
    files(ctx, cache_faults(ctx, ctx.pick(25, 200), errnos), "caches with a failing system call", "ShmTrace")
    files(ctx, cache_misses(ctx, ctx.pick(30, 300)) + [p_files.shm_history(ctx, k) for k in range(ctx.pick(60, 600))], "caches opened and closed", "ShmTrace")
    return ctx.finish()


CHECKS = {"C17": c17, "C21": c21}
