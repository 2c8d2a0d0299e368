"""C25: the library's data bases over drivers of our own."""
import tour
from gen import *
from p_files import values

LETTERS = "nbaucd"
READS = ["users", "favs", "boards", "arts", "treas", "file", "tfile", "uarts", "ucmts", "bcmts", "cmts", "draft"]
CHANGES = ["deldraft", "writedraft", "newboard", "addboard", "updboard", "getboard", "rmboard", "newart", "addart", "write", "append"]
BS = ["B", "C", "a", "ALLPOST", "", "b", "D"]
US = ["u", "uu", "U", "ab", "uv"]
FN = ["f", "g", "M.1.A", "h", ""]
TS = [[], ["t"], ["t", "x"], ["B"]]


def q(r, kind, h):
    u = r.choice(US)
    return dict(op="drvask", q=kind, h=h, b=r.choice(BS), u=u, uhex=u.encode().hex(), fn=r.choice(FN), t=r.choice(TS),
                c=bytes(r.getrandbits(8) for _ in range(r.choice([0, 1, 5]))).hex(), title=r.choice(["", "T", "some title"]), date=" 1/02")


def key(m, *a):
    return "%s(%s)" % (m, ",".join(a))


def line(r):
    k = r.random()
    if k < 0.7:
        return "%s%s: %s %02d/%02d %02d:%02d" % (r.choice(["", "-> ", "\x1b[33m"]), r.choice(US), r.choice(["x", "yes no", "", "10/12 13:45"]),
                                               r.randint(1, 12), r.randint(1, 28), r.randint(0, 23), r.randint(0, 59))
    if k < 0.72:
        return "uu: x 13/40 10:00"
    return r.choice(["", "text", "uu:", "10/12 13:45", "--"])


def text(r):
    return "\n".join(line(r) for _ in range(r.randint(0, 6))).encode().hex()


def data(r):
    """what a driver holds"""
    d = {}
    def put(k, v, p=0.9):
        if r.random() < p:
            d[k] = v
    arts = lambda: [dict(fn=r.choice(FN), own=r.choice(US), title=r.choice(["T", "", "x y"])) for _ in range(r.choice([0, 1, 2, 3, 6]))]
    put("users()", [r.choice(US) for _ in range(r.choice([0, 1, 3]))])
    put("boards()", [r.choice(BS) for _ in range(r.choice([0, 1, 2, 5]))], 0.95)
    for u in US:
        put(key("favs", u), [r.choice(BS) for _ in range(r.choice([0, 1, 3]))])
        put(key("uarts", u), [dict(b=r.choice(BS), fn=r.choice(FN), own=r.choice(US), title="K") for _ in range(r.choice([0, 0, 1, 2]))])
        put(key("ucmts", u), [dict(own=r.choice(US).encode().hex(), txt="kept") for _ in range(r.choice([0, 0, 1, 2]))])
        for f in FN:
            put(key("draft", u, f), [bytes(r.getrandbits(8) for _ in range(r.choice([0, 3]))).hex()], 0.5)
    for b in BS:
        put(key("arts", b), arts(), 0.7)
        for f in FN:
            put(key("file", b, f), [text(r)], 0.97)
            for t in TS:
                put(key("tfile", b, *(t + [f])), [text(r)], 0.2)
        for t in TS:
            put(key("treas", b, *t), arts(), 0.6)
    return d


def fails(r):
    out = {}
    for _ in range(r.choice([0, 0, 1, 1, 2, 5])):
        m = r.choice(["users", "boards", "arts", "arts", "file", "file", "favs", "uarts", "ucmts", "draft", "treas", "tfile"])
        k = {"users": key("users"), "boards": key("boards"), "arts": key("arts", r.choice(BS)), "file": key("file", r.choice(BS), r.choice(FN)),
             "favs": key("favs", r.choice(US)), "uarts": key("uarts", r.choice(US)), "ucmts": key("ucmts", r.choice(US)),
             "draft": key("draft", r.choice(US), r.choice(FN)), "treas": key("treas", r.choice(BS), *r.choice(TS)),
             "tfile": key("tfile", r.choice(BS), *(r.choice(TS) + [r.choice(FN)]))}[m]
        x = r.random()
        if x < 0.4:
            out[k] = r.choice(["io", "noent"])
        elif x < 0.8:
            out[{"treas": "arts", "tfile": "file"}.get(m, m) + "|" + k] = r.choice(["io", "noent"])
        else:
            out[r.choice(["newboard", "addboard", "fname", "newart", "addart", "write", "append", "deldraft", "writedraft", key("Open", "bad")])] = "io"
    return out


def caps(r):
    c = [x for x in LETTERS if r.random() < r.choice([0.5, 0.8])]
    return dict(caps="".join(c), cs=c)


def reg(r, n, d):
    return dict(caps(r), op="drvreg", n=n, d=d, data=data(r), fail=fails(r))


def history(r, k):
    names, hs = ["x", "X", "y", "pttbbs", ""], []
    calls = [reg(r, r.choice(names), "d0")]
    n = 1
    for _ in range(r.randint(10, 40)):
        x = r.random()
        if x < 0.05:
            calls.append(reg(r, r.choice(names), "d%d" % n))
            n += 1
        elif x < 0.2 or not hs:
            h = r.choice("0123")
            nm, src = r.choice(names), r.choice(["s", "file:///t?x", "", "bad"])
            calls.append(dict(op="drvopen", h=h, n=nm, src=src))
            reg_ = [c for c in calls if c["op"] == "drvreg" and c["n"] == nm]
            if reg_:
                f = [c for c in calls if c["op"] in ("drvreg", "drvfail") and c["d"] == reg_[-1]["d"]][-1]["fail"]
                if key("Open", src) not in f and h not in hs:
                    hs.append(h)
        elif x < 0.27:
            calls.append(dict(op="drvfail", d="d%d" % r.randrange(n), fail=fails(r)))
        elif x < 0.35:
            calls.append(dict(op="drvpar", qs=[q(r, r.choice(READS), r.choice(hs)) for _ in range(r.choice([2, 4, 8]))]))
        else:
            calls.append(q(r, r.choice(READS if r.random() < 0.6 else CHANGES), r.choice(hs)))
    return {"id": "h%d" % k, "kind": "seq", "calls": calls, "opt": {}}


def every(ctx):
    """every question of a data base whose driver has this set of capabilities and these failing calls"""
    out = []
    for k, v in enumerate(values(ctx, "DriverModel", "DriverModel_fails_%s.cfg" % ctx.pick("q", "t"))):
        qs = [dict(op="drvask", q=x, h="0", b="B", u="u", uhex="75", fn="0" if "draft" in x else "f", t=["t"], c="6363", title="NT", date="1/02")
              for x in READS + CHANGES]
        out.append({"id": "e%d" % k, "kind": "seq", "calls": v + qs, "opt": {}})
    return out


def names_tour(ctx):
    o = ctx.model("DriverModel", "DriverModel_names.cfg", envs=dict(TOUR="1"))
    _, g, n = tour.graph(o)
    ws = tour.walks([], g, n, 0, ctx.rng, 60)
    ctx.extra.setdefault("tours", []).append({"model": "DriverModel names", "model_states": n, "walks": len(ws), "model_transitions_performed": sum(len(v) for v in g.values())})
    return [{"id": "T%d" % k, "kind": "seq", "calls": w, "opt": {}} for k, w in enumerate(ws)]


def c25(ctx):
    def part(scripts, what):
        hist = ctx.drive(scripts)
        ctx.check("DriverTrace", hist, what, scripts=scripts)
    if not ctx.quick:
        ctx.model("DriverModel", "DriverModel_pairs.cfg")
    part(names_tour(ctx), "names, drivers and handles")
    part(every(ctx), "every question, set of capabilities and failing call")
    part([history(ctx.rng, k) for k in range(ctx.pick(600, 12000))], "histories of data bases over drivers")
    return ctx.finish()


CHECKS = {"C25": c25}
