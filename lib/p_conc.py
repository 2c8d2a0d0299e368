"""C03, C04, C05 (concurrent part), C19, C20, C21: schedules, crashes, failing system calls."""
from hist import *
import tour

B, B2 = "Test", "Tes"


def home(g, n=0, m=0, nb=0, handles=2, lists=True):
    """a home with two boards (n and m entries), nb boards in the list, a user, two articles"""
    pre = [mkdir(board_dir("h0", B)), mkdir(board_dir("h0", B2)), mkdir(user_dir("h0", "bob"))]
    if n >= 0:
        pre.append(put_list(board_dir("h0", B) + "/.DIR", [g.stored() for _ in range(n)]))
    if m >= 0:
        pre.append(put_list(board_dir("h0", B2) + "/.DIR", [g.stored() for _ in range(m)]))
    if nb >= 0:
        pre.append(put_brd("h0/.BRD", [g.board_stored(n) for n in (B, B2, "ALLPOST", "Other", "z")[:nb]]))
    pre.append(put_text(board_dir("h0", B) + "/M.1.A.000", hx("first line\n")))
    pre.append(put_text(board_dir("h0", B) + "/M.2.A.000", ""))
    for h in range(handles):
        pre.append(open_(h, 0, "file"))
    return pre


def add(g, h=0, b=B, via="db"):
    return dict(op="add", h=h, b=b, rec=g.rec(), via=via)


def upd(g, i, h=0, b=B, frm=True):
    c = dict(op="upd", h=h, b=b, at=str(i), ix=i, rec=g.edits() if frm else g.rec())
    if frm:
        c["from"] = i
    return c


def lst(h=0, b=B):
    return dict(op="list", h=h, b=b, via="db")


def conc(sid, g, pre, clients, post, **kw):
    """every second one with clients that are processes of their own"""
    if g.r.random() < 0.5:
        sid, kw["opt"] = sid + "p", dict(kw.get("opt", {}), procs=1)
    return dict({"id": sid, "kind": "conc", "pre": pre, "clients": clients, "post": post, "seed": g.r.randrange(1 << 30)}, **kw)


def c03_scripts(ctx, rounds, mx):
    out = []
    g = G(ctx.rng)
    r = ctx.rng
    for k in range(rounds):
        n = r.choice([0, 1, 2, 3])
        nb = r.choice([0, 1, 2, 3])
        pre = home(g, n if r.random() < 0.8 or n else -1, 1, nb)
        H = lambda: r.choice([0, 1])
        via = lambda: r.choice(["db", "conn"])
        fin = [lst(), lst(b=B2), dict(op="boards", h=0)]
        sets = [
            ("aa", [[add(g, 0, via=via())], [add(g, 1, via=via())]]),
            ("aaa", [[add(g, 0)], [add(g, 1)], [add(g, 0)]]),
            ("aal", [[add(g, 0), add(g, 0)], [lst(1)]]),
            ("alal", [[add(g, 0), lst(0)], [add(g, 1), lst(1)]]),
            ("lla", [[lst(0), lst(0), lst(0)], [add(g, 1)]]),
            ("ab", [[add(g, 0, B)], [add(g, 1, B2), lst(1, B)]]),
            ("bb", [[dict(op="addboard", h=0, rec=g.board_new("n1"), via=via())], [dict(op="addboard", h=1, rec=g.board_new("n2"), via=via())]]),
            ("bbl", [[dict(op="addboard", h=0, rec=g.board_new("n1"), via="db")], [dict(op="boards", h=1)], [dict(op="addboard", h=1, rec=g.board_new("n2"), via="db")]]),
        ]
        if n >= 1:
            sets += [("ua", [[upd(g, n - 1, 0)], [add(g, 1)]]), ("ul", [[upd(g, 0, 0, frm=False)], [lst(1)]]),
                     ("ual", [[upd(g, 0, 0)], [add(g, 1)], [lst(1)]])]
        if n >= 2:
            sets += [("lul", [[lst(0), upd(g, n - 1, 0), lst(0)], [upd(g, 0, 1)]]), ("uu", [[upd(g, 0, 0)], [upd(g, 1, 1)]]), ("uul", [[upd(g, n - 1, 0), upd(g, n - 1, 0)], [upd(g, 0, 1)], [lst(1)]]),
                     ("uua", [[upd(g, 1, 0, frm=False)], [upd(g, 0, 1)], [add(g, 0)]])]
        for name, cl in sets:
            out.append(conc("%s%d" % (name, k), g, pre, cl, fin, max=mx))
    return out


def c04_scripts(ctx, rounds, mx):
    out = []
    g = G(ctx.rng)
    r = ctx.rng

    def cr(h=0, b=B, via=None):
        return dict(op="create", h=h, b=b, own=g.text(14), date=g.text(6), title=g.text(65, True), via=via or r.choice(["db", "map", "name"]))
    for k in range(rounds):
        pre = home(g, 0, 0, 0)
        for name, cl in [("cc", [[cr(0)], [cr(1)]]), ("c2c", [[cr(0), cr(0)], [cr(1)]]), ("cccc", [[cr(0)], [cr(1)], [cr(0)], [cr(1)]]),
                         ("cb", [[cr(0, B)], [cr(1, B2)]])]:
            out.append(conc("%s%d" % (name, k), g, pre, cl, [cr(0)], max=max(4, mx // 4)))
    for k in range(rounds * 3):      # nearly all names are taken
        nfree = r.choice([1, 2, 3, 8])
        free = ["%03X" % x for x in r.sample(range(4096), nfree)]
        pre = home(g, 0, 0, 0) + [dict(op="fill", dir=board_dir("h0", B), free=free, secs=3, ahead=5, list=[])]
        nc = r.choice([2, 2, 3])
        cl = [[cr(j % 2) for _ in range(1)] for j in range(nc)]
        out.append(conc("full%d" % k, g, pre, cl, [dict(op="checkfill", dir=board_dir("h0", B))], max=1, opt={"random": 1}))
    return out


def c04_seq(ctx, n):
    out = []
    r = ctx.rng
    for k in range(n):
        w = World(r, boards=r.randint(1, 2), users=1)
        w.open(0, 0)
        for _ in range(r.randint(3, 40)):
            w.op_create()
            if r.random() < 0.1:
                w.run(1, dict(add=1, write=1))
        if r.random() < 0.5:
            w.add(op="create", h=0, b=r.choice(["", "NoSuch"]), own="61", date="", title="", via=r.choice(["db", "map", "name"]))
        if r.random() < 0.3:
            w.calls.append(put_text("h0/boards/O/Odd", "00"))
            w.add(op="create", h=0, b="Odd", own="61", date="", title="", via=r.choice(["db", "map", "name"]))
        out.append(w.script("c04s%d" % k, snap=1))
    # the board cannot be written, whatever name is tried
    g = G(r)
    for k, e in enumerate(["EACCES", "EROFS", "EIO", "ENOSPC", "EMFILE"]):
        for via in ("db", "map", "name"):
            out.append({"id": "c04f%d%s" % (k, via), "kind": "fault", "pre": home(g, 0, 0, 0),
                        "calls": [dict(op="create", h=0, b=B, own="61", date="", title="62", via=via)],
                        "post": [dict(op="create", h=0, b=B, own="61", date="", title="62", via=via)],
                        "opt": {"errnos": [e], "persist": 1}})
    return out


def c05_conc(ctx, rounds, mx):
    out = []
    g = G(ctx.rng)
    r = ctx.rng
    for k in range(rounds):
        pre = home(g, 0, 0, 0)
        ap = lambda h, f="M.1.A.000": dict(op="append", h=h, b=B, f=f, c=g.content(0.1), via=r.choice(["db", "conn"]))
        rd = lambda h: dict(op="read", h=h, b=B, f="M.1.A.000")
        fin = [rd(0), dict(op="read", h=0, b=B, f="M.2.A.000")]
        for name, cl in [("aa", [[ap(0)], [ap(1)]]), ("aaa", [[ap(0)], [ap(1)], [ap(0)]]), ("ar", [[ap(0), ap(0)], [rd(1)]]),
                         ("a2", [[ap(0)], [ap(1, "M.2.A.000"), ap(1)]])]:
            out.append(conc("p%s%d" % (name, k), g, pre, cl, fin, max=mx))
        # contents larger than any buffer
        n = r.choice([1 << 16, 1 << 17, 300000])
        lg = lambda h, x: dict(op="append", h=h, b=B, f="M.1.A.000", c=x * (n + r.choice([0, 1, 7])), via=r.choice(["db", "conn"]))
        out.append(conc("plarge%d" % k, g, pre, [[lg(0, "61")], [lg(1, "62"), rd(1)]], fin, max=min(mx, 40)))
    return out


# ---------------------------------------------------------------------------------------- crashes

def after(g):
    """what is done after a crash: everything can be read, and work goes on"""
    return [lst(), lst(b=B2), dict(op="boards", h=0), dict(op="read", h=0, b=B, f="M.1.A.000"), dict(op="read", h=0, b=B, f="M.2.A.000"), add(g), lst(),
            dict(op="addboard", h=0, rec=g.board_new("after"), via="db"), dict(op="boards", h=0),
            dict(op="append", h=0, b=B, f="M.1.A.000", c=hx("after\n"), via="db"), dict(op="read", h=0, b=B, f="M.1.A.000"),
            dict(op="create", h=0, b=B, own="61", date="", title="62", via="db"),
            dict(op="rdraft", h=0, u="bob", d="0")]


def targets(g, r, n):
    t = [add(g), add(g, via="conn"), dict(op="addboard", h=0, rec=g.board_new("new"), via=r.choice(["db", "conn"])),
         dict(op="append", h=0, b=B, f="M.1.A.000", c=g.content(0.3) or "61", via="db"),
         dict(op="append", h=0, b=B, f="M.2.A.000", c=g.content(0.3) or "61", via="conn")]
    if r.random() < 0.4:
        t.append(dict(op="append", h=0, b=B, f="M.2.A.000", c="63" * r.choice([70000, 200001]), via="db"))
    for via in ("db", "map", "name"):
        t.append(dict(op="create", h=0, b=B, own=g.text(14), date=g.text(6), title=g.text(65, True), via=via))
    if n:
        i = r.randrange(n)
        t += [upd(g, i), upd(g, r.randrange(n), frm=False), dict(op="addcopy", h=0, b=B2, b2=B, i=i)]
    return t


def c19_scripts(ctx, rounds):
    out = []
    g = G(ctx.rng)
    r = ctx.rng
    for k in range(rounds):
        n = r.choice([0, 1, 2, 5, 33])
        pre = home(g, n if n or r.random() < 0.5 else -1, r.choice([-1, 0, 1]), r.choice([0, 2, 3]))
        for j, t in enumerate(targets(g, r, n)):
            lead = []
            if r.random() < 0.5:
                lead = r.choice([[add(g)], [add(g), add(g, b=B2)], [dict(op="append", h=0, b=B, f="M.1.A.000", c=g.content(), via="db")]])
            out.append({"id": "k%d.%d" % (k, j), "kind": "crash", "pre": pre, "calls": lead + [t], "post": after(g)})
    return out


def c19_conc(ctx, rounds, mx):
    """one of several clients is stopped in the middle"""
    out = []
    g = G(ctx.rng)
    r = ctx.rng
    for k in range(rounds):
        n = r.choice([0, 1, 3])
        pre = home(g, n, 1, 2)
        ts = [t for t in targets(g, r, n) if t["op"] != "create" and t["op"] != "addcopy"]
        cl = [[r.choice(ts)], [add(g, 1), lst(1)], [r.choice([lst(0), add(g), dict(op="append", h=1, b=B, f="M.1.A.000", c=g.content(), via="db")])]]
        out.append(conc("x%d" % k, g, pre, cl, after(g), max=mx, opt={"kill": 1}))
    return out


# ---------------------------------------------------------------------------------------- faults

def fault_ops(g, r, n, nb):
    t = targets(g, r, n) + [lst(), lst(b=B2), dict(op="boards", h=0), dict(op="read", h=0, b=B, f="M.1.A.000"),
                            dict(op="write", h=0, b=B, f="M.1.A.000", c=g.content() or "61", via="db"),
                            dict(op="write", h=0, b=B, f="M.7.A.000", c="6162", via="db"),
                            dict(op="wdraft", h=0, u="bob", d="0", c=g.content() or "61"), dict(op="wdraft", h=0, u="bob", d="5", c="61"),
                            dict(op="rdraft", h=0, u="bob", d="0"), dict(op="ddraft", h=0, u="bob", d="0"),
                            dict(op="uarts", h=0, u=hx("alice")), dict(op="comments", h=0, b=B, f="M.1.A.000", fhex=hx("M.1.A.000")),
                            dict(op="tlist", h=0, b=B, t=["D1"]), dict(op="tread", h=0, b=B, t=["D1"], f="M.1.A.0"),
                            dict(op="bcomments", h=0, b=B, u=hx("alice")), dict(op="ucomments", h=0, u=hx("alice")),
                            dict(op="users", h=0), dict(op="fav", h=0, u="bob"), dict(op="fav", h=0, u="nobody")]
    for i in {0, nb - 1, nb // 2}:
        if nb:
            t.append(dict(op="rmboard", h=0, at=str(i), ix=i))
    return t


def fault_home(g, r, n, nb):
    pre = home(g, -1, r.choice([0, 1]), nb, handles=1)
    es = [g.stored() for _ in range(n)]
    for e in es:
        e["fn"] = hx("M.1.A.000")
        e["own"] = hx(r.choice(["alice", "bob"]))
    if n:
        pre.append(put_list(board_dir("h0", B) + "/.DIR", es))
    for k, b in enumerate((B, B2, "Other", "z")[:nb]):
        if k >= 2:
            pre.append(mkdir(board_dir("h0", b)))
    pre.append(put_text(user_dir("h0", "bob") + "/buf.0", hx("draft text")))
    import p_files
    f, u = p_files.Fav(r), p_files.Rec(r, "user")
    p = user_dir("h0", "bob") + "/.fav"
    pre.append(dict(op="put", path=p, kind="val", c=(b"\x23\x0d" + p_files.enc_fav(f.tree(nb=max(1, nb)))).hex(), anc=anc(p, False)))
    pre.append(dict(op="put", path="h0/.PASSWDS", kind="val", c=b"".join(u.raw() for _ in range(n)).hex(), anc=anc("h0/.PASSWDS", False)))
    pre.append(put_text(board_dir("h0", B) + "/M.1.A.000", hx("alice: one two 10/12 13:45\nplain\nbob: three 11/12 13:46\n")))
    t = "h0/man/boards/T/Test/D1"
    pre.append(put_list(t + "/.DIR", [g.stored() for _ in range(2)]))
    pre.append(put_text(t + "/M.1.A.0", hx("treasure")))
    return pre


def c20_scripts(ctx, rounds, errnos):
    out = []
    g = G(ctx.rng)
    r = ctx.rng
    for k in range(rounds):
        n, nb = r.choice([0, 1, 3]), r.choice([0, 1, 3])
        pre = fault_home(g, r, n, nb)
        post = [lst(), lst(b=B2), dict(op="boards", h=0), dict(op="read", h=0, b=B, f="M.1.A.000"), dict(op="read", h=0, b=B, f="M.2.A.000"),
                dict(op="rdraft", h=0, u="bob", d="0"), dict(op="rdraft", h=0, u="bob", d="5"), add(g), lst()]
        for j, t in enumerate(fault_ops(g, r, n, nb)):
            out.append({"id": "f%d.%d.%s" % (k, j, t["op"]), "kind": "fault", "pre": pre, "calls": [t], "post": post,
                        "opt": {"errnos": errnos}})
    return out


def short_scripts(ctx, rounds):
    """half of a write arrives, then the device is full"""
    out = []
    g = G(ctx.rng)
    r = ctx.rng
    for k in range(rounds):
        pre = fault_home(g, r, 2, 2)
        post = [lst(), dict(op="boards", h=0), dict(op="read", h=0, b=B, f="M.2.A.000"), dict(op="rdraft", h=0, u="bob", d="5")]
        for t in [add(g), dict(op="addboard", h=0, rec=g.board_new("new"), via="db"), upd(g, 0), upd(g, 1, frm=False),
                  dict(op="write", h=0, b=B, f="M.1.A.000", c=hx("some text"), via="db"),
                  dict(op="wdraft", h=0, u="bob", d="0", c=hx("some text")),
                  dict(op="append", h=0, b=B, f="M.1.A.000", c=hx("some more text"), via="db")]:
            out.append({"id": "s%d.%s.%d" % (k, t["op"], len(out)), "kind": "fault", "pre": pre, "calls": [t], "post": post,
                        "opt": {"errnos": ["ENOSPC"], "short": 1}})
    return out


def run(ctx, scripts, what, batch=None):
    hist = ctx.drive(scripts)
    ctx.check("BBSTrace", hist, what, scripts=scripts, batch=batch)


def c03(ctx):
    run(ctx, c03_scripts(ctx, ctx.pick(3, 12), ctx.pick(100, 1500)), "schedules of concurrent clients", ctx.pick(None, 6000))
    scripts = []
    for k in range(ctx.pick(30, 300)):
        w = World(ctx.rng, boards=ctx.rng.randint(1, 3))
        w.open(0, 0)
        w.open(1, 0)
        w.pre_brd(0, w.boards[0])
        for b in w.boards[0]:
            w.pre_list(0, b, ctx.rng.choice([1, 3, 33, 70]))
        for h in (0, 1):
            w.add(op="boards", h=h)
            for b in w.boards[0]:
                w.add(op="list", h=h, b=b, via="db")
        scripts.append(w.script("r%d" % k))
    run(ctx, at_once(ctx.rng, scripts, len(scripts)), "readings at the same time")
    return ctx.finish()


def c04(ctx):
    run(ctx, c04_scripts(ctx, ctx.pick(4, 30), ctx.pick(60, 400)), "schedules of creating clients")
    run(ctx, c04_seq(ctx, ctx.pick(80, 1000)), "histories of creations")
    return ctx.finish()


def c19(ctx):
    run(ctx, c19_scripts(ctx, ctx.pick(8, 80)), "every crash point of an operation")
    run(ctx, c19_conc(ctx, ctx.pick(12, 100), ctx.pick(40, 200)), "a client stops among others")
    return ctx.finish()


def c20(ctx):
    errnos = ["EIO", "ENOSPC", "EACCES"] if ctx.quick else ["EIO", "ENOSPC", "EACCES", "EMFILE", "EDQUOT", "EROFS", "EFBIG"]
    run(ctx, c20_scripts(ctx, ctx.pick(10, 40), errnos), "every failing system call of an operation", 6000)
    run(ctx, short_scripts(ctx, ctx.pick(5, 15)), "short writes")
    return ctx.finish("fault_enumeration", coverage=dict(
        evaluations=ctx.validated, distinct_nontrivial=len(ctx.distinct),
        rule="one history per operation, home and system call of the operation that is made to fail, times the error numbers; each is run on the real code and validated by TLC"))


CHECKS = {"C03": c03, "C04": c04, "C19": c19, "C20": c20}
