"""C01, C02, C05, C06, C07, C08: histories over the store."""
from hist import *
import tour
import comm
from comm import c09_scripts, c09_long, population


def tours(ctx, *groups):
    scripts = []
    for g in groups:
        scripts += tour.scripts(ctx, g)
    hist = ctx.drive(scripts)
    ctx.check("BBSTrace", hist, "transition tours", scripts=scripts)


def randoms(ctx, scripts, what, batch=None):
    hist = ctx.drive(scripts)
    ctx.check("BBSTrace", hist, what, scripts=scripts, batch=batch)


EDGES = [127, 128, 255, 256, 511, 512, 1023, 4095, 4096, 8191, 16383, 32767, 32768, 65535, 65536, 65537, 100000]
HUGE = [1 << 20, (1 << 24) - 1, 1 << 24, (1 << 24) + 1, (1 << 25) - 1, 1 << 25, (1 << 25) + 1]


def big_lists(ctx, acts, kind="list"):
    """very long lists, most of whose entries are zero"""
    r = ctx.rng
    g = G(r)
    calls = []
    # at every width at which a number or an offset could wrap, and around it
    must = [(a, e, e + d) for a in acts if a in ("upd", "add") for e in (1 << 16, 1 << 24, 1 << 25) for d in (-1, 0, 1)]
    for k in range(ctx.pick(20, 150) + len(must)):
        act = r.choice(acts)
        fixed = must[k] if k < len(must) else None
        if fixed:
            act = fixed[0]
        edges = EDGES
        if act in ("upd", "add") and r.random() < 0.5:
            edges = HUGE
        if act == "rm" and ctx.quick:
            edges = EDGES[:-4]
        n = r.choice(edges) + r.choice([0, 1, 2])
        if fixed:
            n = fixed[2] + (1 if act == "upd" else 0)
        pre = []
        for i in sorted({0, n - 1, n // 2} | {x + d for x in edges for d in (-1, 0, 1) if x + d < n and r.random() < 0.3}):
            if kind == "list":
                e = g.stored()
                e["fn"] = hx("M.%d.A.%03X" % (1500000000 + i, r.getrandbits(12)))
                pre.append(dict(i=i, raw=enc_entry(e).hex(), v=e))
            else:
                b = g.board_stored("b%d" % i)
                pre.append(dict(i=i, raw=finish_board(b).hex(), v={x: b[x] for x in ("id", "title", "bm", "cls", "cid", "attr", "gid", "lvl")}))
        c = dict(op="sparse", kind=kind, n=n, pre=pre, act=act)
        i = r.choice([0, n - 1, n - 1, r.randrange(n)] + [x + d for x in edges for d in (-1, 0, 1) if x + d < n])
        if fixed:
            i = fixed[2]
        if act == "upd":
            if not fixed and r.random() < 0.15:
                i = n + r.choice([0, 1, 2 ** 24])
            c.update(ix=i, at=str(i))
        if act == "rm":
            c["ix"] = i if r.random() < 0.9 else n
        if act in ("upd", "add"):
            c["rec"] = g.rec()
            c["rec"]["fn"] = hx("M.%d.A.%03X" % (1600000000 + i, r.getrandbits(12)))
        calls.append(c)
    import p_files
    p_files.files(ctx, p_files.chunked(calls, 2, "big"), "very long lists")


def c01(ctx):
    tours(ctx, "list")
    scripts = []
    n = ctx.pick(250, 2500)
    for k in range(n):
        w = World(ctx.rng, boards=ctx.rng.randint(1, 3))
        w.open(0, 0)
        for b in w.boards[0]:
            if ctx.rng.random() < 0.5:
                w.pre_list(0, b, ctx.rng.choice([0, 1, 2, 3, 33, 70]))
        w.run(ctx.rng.randint(3, 25), dict(add=6, addcopy=1, list=3, upd=1, create=1))
        for b in w.boards[0]:
            w.add(op="list", h=0, b=b, via="db")
        # boards that cannot take an article
        if ctx.rng.random() < 0.3:
            w.add(op="add", h=0, b="Missing", rec=w.g.rec(), via="db")
            w.add(op="list", h=0, b="Missing", via="db")
        scripts.append(w.script("c01r%d" % k))
    for k in range(ctx.pick(2, 12)):     # long lists
        w = World(ctx.rng, boards=1)
        w.open(0, 0)
        w.pre_list(0, w.boards[0][0], ctx.rng.choice([100, 300]))
        w.run(ctx.pick(60, 250), dict(add=20, list=1))
        w.op_list()
        scripts.append(w.script("c01l%d" % k))
    randoms(ctx, scripts, "histories of additions")
    randoms(ctx, at_once(ctx.rng, scripts, ctx.pick(40, 400)), "readings at the same time")
    big_lists(ctx, ["add", "list"])
    return ctx.finish()


def c02(ctx):
    tours(ctx, "list")
    scripts = []
    for k in range(ctx.pick(300, 3000)):
        w = World(ctx.rng, boards=ctx.rng.randint(1, 2))
        w.open(0, 0)
        for b in w.boards[0]:
            if ctx.rng.random() < 0.8:
                w.pre_list(0, b, ctx.rng.choice([0, 1, 2, 3, 5, 33]))
        for _ in range(ctx.rng.randint(2, 12)):
            w.run(1, dict(upd=5, add=1, addcopy=1))
            w.op_list()
        if ctx.rng.random() < 0.3:
            w.add(op="upd", h=0, b="Missing", rec=w.g.rec(), **w.g.index(0))
        scripts.append(w.script("c02r%d" % k))
    randoms(ctx, scripts, "histories of updates")
    randoms(ctx, at_once(ctx.rng, scripts, ctx.pick(40, 400)), "readings at the same time")
    big_lists(ctx, ["upd"])
    return ctx.finish()


def c05(ctx):
    tours(ctx, "text")
    scripts = []
    for k in range(ctx.pick(250, 2500)):
        w = World(ctx.rng, boards=ctx.rng.randint(1, 2))
        w.open(0, 0)
        for h, b in list(w.arts):
            if ctx.rng.random() < 0.5:
                f = "M.1400000000.A.%03X" % ctx.rng.randrange(3)
                w.calls.append(put_text(board_dir("h0", b) + "/" + f, w.g.content()))
                w.arts[h, b].append(f)
        for _ in range(ctx.rng.randint(3, 20)):
            w.run(1, dict(write=4, append=4, read=3))
            if ctx.rng.random() < 0.5 and w.calls[-1]["op"] in ("write", "append"):
                c = w.calls[-1]
                w.add(op="read", h=c["h"], b=c["b"], f=c["f"])
        scripts.append(w.script("c05r%d" % k))
    for k in range(ctx.pick(2, 10)):
        w = World(ctx.rng, boards=1)
        w.open(0, 0)
        b = w.boards[0][0]
        for n in ctx.rng.sample([1, 511, 512, 32767, 32768, 32769, 65536, 100000, 262144, 5000], 3) + ([(1 << 20) + 1] if k == 0 else [(1 << 22) - 3] if k == 1 else [(1 << 24) + 1] if k == 2 else []):
            c = (bytes(ctx.rng.getrandbits(8) for _ in range(997)) * (n // 997 + 1))[:n].hex()
            w.add(op=ctx.rng.choice(["write", "append"]), h=0, b=b, f="M.1.A.000", c=c, via="db")
            w.add(op="read", h=0, b=b, f="M.1.A.000")
        scripts.append(w.script("c05b%d" % k))
    randoms(ctx, scripts, "histories of articles")
    randoms(ctx, at_once(ctx.rng, scripts, ctx.pick(40, 400)), "readings at the same time")
    conc_part(ctx)
    return ctx.finish()


def c06(ctx):
    tours(ctx, "board")
    scripts = []
    for k in range(ctx.pick(300, 3000)):
        w = World(ctx.rng, boards=1)
        w.open(0, 0)
        if ctx.rng.random() < 0.8:
            w.pre_brd(0, [ctx.rng.choice(BOARDS + [None]) for _ in range(ctx.rng.choice([0, 1, 2, 3, 4, 17, 40]))])
        for _ in range(ctx.rng.randint(2, 14)):
            w.run(1, dict(addboard=4, rmboard=5))
            w.op_boards()
        scripts.append(w.script("c06r%d" % k))
    for k in range(ctx.pick(3, 12)):     # long lists
        w = World(ctx.rng, boards=1)
        w.open(0, 0)
        n = ctx.rng.choice([255, 256, 257, 300, 520, 1100])
        w.pre_brd(0, [ctx.rng.choice(BOARDS + [None]) for _ in range(n)])
        for _ in range(ctx.pick(4, 8)):
            w.run(1, dict(addboard=1, rmboard=5))
        w.op_boards()
        scripts.append(w.script("c06l%d" % k))
    randoms(ctx, scripts, "histories of board lists")
    randoms(ctx, at_once(ctx.rng, scripts, ctx.pick(40, 400)), "readings at the same time")
    big_lists(ctx, ["rm", "list"], kind="brd")
    return ctx.finish()


def c07(ctx):
    tours(ctx, "draft")
    scripts = []
    for k in range(ctx.pick(300, 3000)):
        w = World(ctx.rng, boards=1, users=ctx.rng.randint(1, 3))
        w.open(0, 0)
        if ctx.rng.random() < 0.3:
            w.calls.append(put_text(user_dir("h0", w.users[0]) + "/buf." + ctx.rng.choice(SLOTS), w.g.content()))
        elif ctx.rng.random() < 0.3:    # something that cannot be read
            p = user_dir("h0", w.users[0]) + "/buf." + ctx.rng.choice(SLOTS)
            if ctx.rng.random() < 0.5:
                w.calls.append(mkdir(p))
            else:
                w.calls.append({"op": "symlink", "path": p, "to": p.split("/")[-1], "anc": anc(p, False)})
        for _ in range(ctx.rng.randint(3, 20)):
            w.run(1, dict(wdraft=5, rdraft=3, ddraft=2))
            if ctx.rng.random() < 0.5 and w.calls[-1]["op"] in ("wdraft", "ddraft"):
                c = w.calls[-1]
                w.add(op="rdraft", h=c["h"], u=c["u"], d=c["d"])
        scripts.append(w.script("c07r%d" % k, snap=1))
    for k in range(ctx.pick(2, 10)):
        w = World(ctx.rng, boards=1)
        w.open(0, 0)
        u = w.users[0]
        for n in ctx.rng.sample([1, 511, 512, 513, 4096, 32768, 65536, 65537, 100000, 262144], 4) + ([(1 << 20) + 1] if k == 0 else [(1 << 22) - 3] if k == 1 else [(1 << 24) + 1] if k == 2 else []):
            c = (bytes(ctx.rng.getrandbits(8) for _ in range(997)) * (n // 997 + 1))[:n].hex()
            w.add(op="wdraft", h=0, u=u, d="0", c=c)
            w.add(op="rdraft", h=0, u=u, d="0")
        scripts.append(w.script("c07b%d" % k))
    randoms(ctx, scripts, "histories of drafts")
    randoms(ctx, at_once(ctx.rng, scripts, ctx.pick(40, 400)), "readings at the same time")
    return ctx.finish()


HOMES = ["h$HOME", "${h}", "h%41", "hA", "h 0", "h#1", "~", "h&a=b", "h..", "h?x=1", "h+0", "a:b", "h0/boards", "h0/home", "h0/n", "hh/h0",
         "h0/home/h0", "%2e%2e", "h\\\\0", "file:", "h;x", "-h", "h*", "H0", "h1"]


def seams(rng, k):
    """names that are alike when they are written one after the other without their seams: home and
    board, board and file, user and slot"""
    w = World(rng, homes=2, boards=1, users=1)
    word = "".join(rng.choice("TestABab019") for _ in range(8))
    word = rng.choice("TAba") + word[1:]
    i, j = sorted(rng.sample(range(0, 6), 2))
    a, b = sorted(rng.sample(range(1, 8), 2))
    word2 = rng.choice("TAba") + "".join(rng.choice("TestABab019") for _ in range(8))
    w.calls = []
    h = "hz"
    bs = [[word[i:], word2[:a], word2[:b]], [word[j:], word2[:a]]]
    us = [word2[:a], word2[:b]]
    sl = [word2[a:], word2[b:], "0"]
    fs = [word2[a:] + "M.1.A.000", word2[b:] + "M.1.A.000", "M.1.A.000"]
    calls = []
    for x in (0, 1):
        calls.append(mkdir("h%d" % x))
        for y in bs[x]:
            calls.append(mkdir(board_dir("h%d" % x, y)))
        for u in us:
            calls.append(mkdir(user_dir("h%d" % x, u)))
        w.boards[x] = bs[x]
    w.calls = calls
    for x in (0, 1):
        w.open(x, x)
    g = w.g
    for _ in range(rng.randint(12, 30)):
        x = rng.choice([0, 1])
        y = rng.choice(bs[x])
        w.calls.append(rng.choice([
            lambda: dict(op="add", h=x, b=y, rec=g.rec(), via="db"),
            lambda: dict(op="list", h=x, b=y, via="db"),
            lambda: dict(op="write", h=x, b=y, f=rng.choice(fs), c=g.content(), via=rng.choice(["db", "conn"])),
            lambda: dict(op="append", h=x, b=y, f=rng.choice(fs), c=g.content(), via="db"),
            lambda: dict(op="read", h=x, b=y, f=rng.choice(fs)),
            lambda: dict(op="wdraft", h=x, u=rng.choice(us), d=rng.choice(sl), c=g.content()),
            lambda: dict(op="rdraft", h=x, u=rng.choice(us), d=rng.choice(sl)),
            lambda: dict(op="ddraft", h=x, u=rng.choice(us), d=rng.choice(sl)),
        ])())
    w.calls = renamed(w.calls, {"h0": h + word[:i], "h1": h + word[:j]})
    return w.script("c08s%d" % k, snap=1)


def c08(ctx):
    tours(ctx, "home")
    scripts = []
    for k in range(ctx.pick(250, 2500)):
        w = World(ctx.rng, homes=ctx.rng.randint(1, 3), boards=ctx.rng.randint(1, 3), users=2)
        g = w.g
        for h in w.homes:
            w.open(h, h)
        for h in w.homes:
            w.pre_brd(h, w.boards[h])
            for b in w.boards[h]:
                if ctx.rng.random() < 0.6:
                    w.pre_list(h, b, ctx.rng.choice([1, 2]))
                if ctx.rng.random() < 0.6:
                    w.calls.append(put_text(board_dir("h%d" % h, b) + "/M.1400000000.A.000", g.content()))
                # a treasure directory with two levels
                t = ctx.rng.choice([["D1"], ["D1", "D2"], ["D1", "D2", "D3"], []])
                p = "h%d/man/boards/%s/%s" % (h, b[:1], "/".join([b] + t))
                w.calls.append(put_list(p + "/.DIR", [g.stored() for _ in range(ctx.rng.randint(0, 2))]))
                w.calls.append(put_text(p + "/M.1.A.0", g.content()))
        trea = [["D1"], ["D1", "D2"], ["D1", "D2", "D3"], [], ["D2"]]
        for _ in range(ctx.rng.randint(5, 18)):
            x = ctx.rng.random()
            if x < 0.12:
                hd = ctx.rng.choice([0, 1, 2, 3, 4])
                w.open(hd, ctx.rng.choice(w.homes))
            elif x < 0.17:
                w.add(op="openbad", driver=ctx.rng.choice(["nosuch", "", "PTTBBS"]))
            elif x < 0.30:
                hd, h, b = w.pick()
                w.add(op="tlist", h=hd, b=b, t=ctx.rng.choice(trea))
            elif x < 0.40:
                hd, h, b = w.pick()
                w.add(op="tread", h=hd, b=b, t=ctx.rng.choice(trea), f="M.1.A.0")
            else:
                w.run(1, dict(add=2, addcopy=1, list=2, upd=2, write=2, append=2, read=2, boards=1, addboard=1, rmboard=1,
                              wdraft=2, rdraft=2, ddraft=1, uarts=1, create=2))
        if ctx.rng.random() < 0.6:      # homes of any name, one inside the other, alike except for case
            names = ["h0"] + ctx.rng.sample(HOMES, 2)
            if ctx.rng.random() < 0.7:
                names[0] = ctx.rng.choice(["H1", "h", "h0 ", "$h"])
            w.calls = renamed(w.calls, {"h%d" % i: n for i, n in enumerate(names)})
        scripts.append(w.script("c08r%d" % k, snap=1))
    scripts += [seams(ctx.rng, k) for k in range(ctx.pick(40, 600))]
    randoms(ctx, scripts, "histories over several homes")
    randoms(ctx, at_once(ctx.rng, scripts, ctx.pick(40, 400)), "readings at the same time")
    return ctx.finish()


def c09(ctx):
    scripts = c09_scripts(ctx.rng, ctx.pick(300, 3000))
    randoms(ctx, scripts, "articles with comments", batch=ctx.pick(None, 600))
    randoms(ctx, at_once(ctx.rng, scripts, ctx.pick(40, 400)), "readings at the same time")
    randoms(ctx, c09_long(ctx.rng, ctx.pick(4, 40)), "long lines and many comments")
    import p_files
    r = ctx.rng
    sizes = [1 << 16, 1 << 20, (1 << 20) - 30, (1 << 22) + 5, r.choice([1 << 15, 1 << 17, 1 << 18, 1 << 19, 1 << 21, 1 << 23]) + r.randint(-60, 60)]
    sizes += ctx.pick([], [(1 << x) + r.randint(-60, 60) for x in range(12, 26)] * 3)
    p_files.files(ctx, p_files.chunked(comm.c09_big(r, sizes), 1, "b"), "long articles")
    return ctx.finish()


def c10(ctx):
    tours(ctx, "board")
    scripts = [population(ctx.rng, k, "arts") for k in range(ctx.pick(200, 2000))]
    scripts += [population(ctx.rng, k, "comments") for k in range(ctx.pick(120, 1000))]
    randoms(ctx, scripts, "populations of boards", batch=ctx.pick(None, 600))
    randoms(ctx, at_once(ctx.rng, scripts, ctx.pick(40, 400)), "readings at the same time")
    return ctx.finish()


def conc_part(ctx):
    import p_conc
    p_conc.run(ctx, p_conc.c05_conc(ctx, ctx.pick(4, 20), ctx.pick(100, 1000)), "schedules of concurrent appends")


CHECKS = {"C01": c01, "C02": c02, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09, "C10": c10}
