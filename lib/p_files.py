"""C11..C15: files and records, judged by themselves (FilesTrace) or within a home (BBSTrace)."""
import os, struct
from hist import *
import tour


def values(ctx, spec, cfg, **kw):
    """the values which a model has printed"""
    o = ctx.model(spec, cfg, **kw)
    out = []
    for line in o.splitlines():
        if line.startswith('"VAL@@@'):
            out.append(json.loads(tour.unescape(line)[6:]))
    ctx.extra.setdefault("values", []).append({"model": cfg, "values": len(out)})
    return out


def chunked(calls, n, prefix, **opt):
    return [{"id": "%s%d" % (prefix, k), "kind": "seq", "calls": calls[k:k + n], "opt": opt} for k in range(0, len(calls), n)]


def files(ctx, scripts, what, spec="FilesTrace", batch=None):
    hist = ctx.drive(scripts)
    ctx.check(spec, hist, what, scripts=scripts, batch=batch)


# ---------------------------------------------------------------------------------------- favourites

class Fav:
    def __init__(self, rng):
        self.r = rng
        self.g = G(rng)
        self.plain = False

    def title(self, over=False):
        k = self.r.random()
        if k < 0.1:
            return ""
        if k < 0.25:
            return hx(self.g.ascii(49))
        if over and k < 0.35:
            return hx(self.g.ascii(self.r.choice([50, 51, 60, 120])))
        if k < 0.7 and not self.plain:
            return hx(self.g.big5(self.r.choice([2, 3, 48, 49, self.r.randint(2, 49)])))
        return hx(self.g.ascii(self.r.randint(1, 48)))

    def items(self, depth, width, over=False, numbered=False, nb=3):
        out, nf, nl = [], 0, 0
        for _ in range(width):
            t = self.r.choice([1, 1, 1, 2, 3] if depth else [1, 1, 3])
            a = self.r.choice([0, 1, 2, 3, 8, 255, self.r.getrandbits(8)])
            if t == 1:
                i = self.r.choice([1, nb, self.r.randint(1, nb + 1), nb + 1, 0, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 65536, 65537, self.g.u32()])
                v, b = self.g.u32(), self.g.u32()
                out.append({"t": 1, "attr": a, "id": [i >> 16, i & 65535], "visit": [v >> 16, v & 65535], "battr": [b >> 16, b & 65535]})
            elif t == 2:
                nf += 1
                out.append({"t": 2, "attr": a, "id": nf if numbered else self.r.getrandbits(8), "title": self.title(over),
                            "items": self.items(depth - 1, self.r.choice([0, 1, 2, 3]), over, numbered, nb)})
            else:
                nl += 1
                out.append({"t": 3, "attr": a, "id": nl if numbered else self.r.getrandbits(8)})
        return out

    def tree(self, **kw):
        return self.items(self.r.choice([0, 1, 2, 3, 6]), self.r.choice([0, 1, 2, 5, 12]), **kw)


def enc_fav(items):
    n = [sum(1 for x in items if x["t"] == k) for k in (1, 3, 2)]
    r = struct.pack("<HBB", *n)
    for x in items:
        r += bytes([x["t"], x["attr"]])
        if x["t"] == 1:
            for f in ("id", "visit", "battr"):
                r += struct.pack("<HH", x[f][1], x[f][0])
        elif x["t"] == 2:
            r += bytes([x["id"]]) + fixed(bytes.fromhex(x["title"]), 49)
        else:
            r += bytes([x["id"]])
    return r + b"".join(enc_fav(x["items"]) for x in items if x["t"] == 2)


def deep(f, n, nb=3):
    """folders in folders, n levels of them"""
    t = f.items(0, 2, nb=nb)
    for d in range(n):
        t = [{"t": 2, "attr": 1, "id": 1, "title": f.title(), "items": t}] + f.items(0, 1, nb=nb)
    return t


def garbage(rng, b):
    """behind the NUL of a title there may be anything; the file may go on after the tree"""
    return b + bytes(rng.getrandbits(8) for _ in range(rng.choice([0, 0, 1, 4, 30])))


def c11(ctx):
    r = ctx.rng
    f = Fav(r)
    vals = values(ctx, "FavModel", "FavModel_%s.cfg" % ctx.pick("q", "t"))
    calls = []
    for v in vals:
        calls.append(dict(op="favraw", c=v["c"], via="file" if r.random() < 0.3 else ""))
        calls.append(dict(op="favtree", ver=v["ver"], items=v["items"]))
    for k in range(ctx.pick(500, 6000)):
        t = f.tree(over=r.random() < 0.3, numbered=r.random() < 0.3)
        calls.append(dict(op="favtree", ver=r.choice([3363, 0, 65535, r.getrandbits(16)]), items=t))
        raw = struct.pack("<H", r.choice([3363, 0, 65535])) + enc_fav(t)
        calls.append(dict(op="favraw", c=garbage(r, raw).hex(), via=r.choice(["", "file"])))
    for n in (255, 256, 300):              # many boards
        t = []
        while len(t) < n:
            t += [x for x in f.items(0, 20) if x["t"] == 1]
        t = f.items(1, 2) + t[:n] + [{"t": 3, "attr": 1, "id": 0}]
        raw = struct.pack("<H", 3363) + enc_fav(t)
        calls.append(dict(op="favtree", ver=3363, items=t))
        calls.append(dict(op="favraw", c=raw.hex(), via=""))
    for nl, nf in ((128, 3), (255, 0), (200, 60), (2, 127), (0, 129), (1, 255), (255, 255)):       # many lines and folders
        t = [{"t": 3, "attr": 1, "id": n % 256} for n in range(1, nl + 1)]
        t += [{"t": 2, "attr": 1, "id": n % 256, "title": f.title(), "items": f.items(0, 1) if n % 9 == 0 else []} for n in range(1, nf + 1)]
        r.shuffle(t)
        calls.append(dict(op="favtree", ver=3363, items=t))
        calls.append(dict(op="favraw", c=(struct.pack("<H", 3363) + enc_fav(t)).hex(), via=""))
    for k in range(3):                     # deep
        t = deep(f, [12, 20, 70][k])
        calls.append(dict(op="favtree", ver=3363, items=t))
        calls.append(dict(op="favraw", c=(struct.pack("<H", 3363) + enc_fav(t)).hex(), via=""))
    for k in range(ctx.pick(6, 40)):       # every cut of a file
        raw = struct.pack("<H", 3363) + enc_fav(f.items(2, r.choice([1, 2, 3])))
        for n in range(len(raw)):
            calls.append(dict(op="favraw", c=raw[:n].hex(), via=r.choice(["", "", "", "file"])))
    for k in range(ctx.pick(150, 2000)):   # some bytes changed: kinds, numbers, counts
        f.plain = True
        raw = bytearray(struct.pack("<H", 3363) + enc_fav(f.items(2, r.choice([1, 2, 3]))))
        for p in r.sample(range(2, len(raw)), min(3, len(raw) - 2)):
            if raw[p] < 0x80:
                raw[p] = r.choice([0, 1, 2, 3, 4, 5, 0x7f])
        calls.append(dict(op="favraw", c=bytes(raw).hex(), via=""))
    f.plain = False
    for n in (0, 1, 2, 3, 4, 5):           # headers that promise more than there is
        for h in ("23ed", "230d0000ffff", "230dffffffff", "230dffff0100", "230dffff00010000", "230d010000000101"):
            calls.append(dict(op="favraw", c=h[:2 * n] if n < 5 else h, via=""))
    files(ctx, chunked(calls, 40, "f"), "favourites read and written")
    files(ctx, at_once(r, chunked(calls, 12, "f"), ctx.pick(30, 300)), "favourites at the same time")
    scripts = []
    for k in range(ctx.pick(200, 2000)):
        nb = r.choice([0, 1, 2, 3, 5])
        w = World(r, boards=1, users=2)
        w.open(0, 0)
        if r.random() < 0.95:
            w.pre_brd(0, r.sample(BOARDS, nb), 0.15)
        for u in w.users:
            if r.random() < 0.85:
                raw = struct.pack("<H", 3363) + enc_fav(deep(f, r.choice([9, 17, 33, 65]), nb=max(1, nb)) if r.random() < 0.06 else f.tree(nb=max(1, nb)))
                if r.random() < 0.1:
                    raw = raw[:r.randrange(len(raw))]
                p = user_dir("h0", u) + "/.fav"
                w.calls.append(dict(op="put", path=p, kind="val", c=garbage(r, raw).hex(), anc=anc(p, False)))
        for _ in range(3):
            w.add(op="fav", h=0, u=r.choice(w.users + w.users + ["nobody", ""]))
            if r.random() < 0.4:
                w.op_addboard()
            elif r.random() < 0.3 and nb:
                w.op_rmboard()
        w.add(op="fav", h=0, u=w.users[0])
        scripts.append(w.script("u%d" % k, snap=1))
    files(ctx, scripts, "favourites of users", "BBSTrace")
    files(ctx, at_once(r, scripts, ctx.pick(40, 400)), "favourites of users at the same time", "BBSTrace")
    return ctx.finish()


# ---------------------------------------------------------------------------------------- passwords

SALT = b"./0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"


def some_pw(r):
    k = r.random()
    n = r.choice([0, 1, 2, 7, 8, 8, 9, 12, 30, r.randint(1, 20)])
    if k < 0.5:
        return bytes(r.randint(0x20, 0x7e) for _ in range(n))
    if k < 0.7:
        return bytes(r.randint(1, 255) for _ in range(n))
    if k < 0.85:
        return bytes(r.randint(0x80, 0xff) for _ in range(n))
    b = bytearray(r.randint(1, 255) for _ in range(max(1, n)))
    b[r.randrange(len(b))] = 0
    return bytes(b)


def near(r, pw):
    """a password related to pw"""
    k = r.choice(["same", "same", "tail", "cut8", "nul", "high", "low", "case", "short", "longer", "empty", "swap", "bit8"])
    b = bytearray(pw)
    if k == "tail":
        return bytes(b[:8]) + bytes(r.randint(1, 255) for _ in range(r.choice([1, 3, 9])))
    if k == "cut8":
        return bytes(b[:8])
    if k == "nul":
        return bytes(b) + b"\0" + bytes(r.randint(0, 255) for _ in range(r.choice([0, 1, 9])))
    if k == "empty":
        return b""
    if k == "longer":
        return bytes(b) + bytes([r.randint(1, 255)])
    if not b:
        return bytes([r.randint(0, 255)])
    p = r.randrange(min(len(b), 10))
    if k == "high":
        b[p] ^= 0x80
    elif k == "bit8" and len(b) > 7:
        b[7] ^= 1 << r.randrange(8)
    elif k == "low":
        b[p] ^= 1 << r.randrange(7)
    elif k == "case":
        b = bytearray(bytes(b).swapcase())
    elif k == "short":
        b = b[:-1]
    elif k == "swap" and len(b) > 1:
        b[0], b[1] = b[1], b[0]
    return bytes(b)


def near_hash(r, h):
    """a stored field made of the hash h (bytes)"""
    k = r.choice(["exact", "exact", "exact", "exact", "garb", "one", "cut", "full", "lead", "empty", "salt", "two", "junk", "rot", "space"])
    pad = lambda b: (b + bytes(14))[:14]
    if k == "garb":            # behind the NUL there may be anything: 13 characters leave one byte, the NUL
        return pad(h)
    if k == "one":
        b = bytearray(h)
        p = r.randrange(13)
        b[p] = r.choice([c for c in SALT if c != b[p]])
        return pad(bytes(b))
    if k == "cut":
        n = r.choice([0, 1, 2, 3, 11, 12])
        return pad(h[:n]) if r.random() < 0.5 else pad(h[:n] + b"\0" + h[n + 1:])
    if k == "full":
        return h + bytes([r.choice(SALT)])
    if k == "lead":
        return b"\0" + h
    if k == "empty":
        return bytes(14)
    if k == "salt":
        b = bytearray(h)
        b[0], b[1] = b[1], b[0]
        return pad(bytes(b))
    if k == "two":
        return pad(h[:2] + bytes(r.choice(SALT) for _ in range(11)))
    if k == "junk":
        return bytes(r.getrandbits(8) for _ in range(14))
    if k == "rot":
        return pad(h[1:] + h[:1])
    if k == "space":
        return pad(h[:-1] + b" ")
    return pad(h)


def hashes(ctx, pairs):
    f = os.path.join(ctx.scratch, "des.ndjson")
    with open(f, "w") as fh:
        for pw, salt in pairs:
            fh.write(json.dumps({"pw": pw.hex(), "salt": salt.hex()}) + "\n")
    return [(bytes.fromhex(v["pw"]), bytes.fromhex(v["hash"])) for v in values(ctx, "DesGen", "DesGen.cfg", envs={"TRACE": f})]


def c14(ctx):
    r = ctx.rng
    salts = [bytes([a, b]) for a in SALT for b in SALT]
    r.shuffle(salts)
    n = ctx.pick(300, 4096)
    # each salt character at each place at least once
    cover = [bytes([SALT[k], SALT[(k * 37 + 11) % 64]]) for k in range(64)]
    pairs = [(some_pw(r), s) for s in (cover + salts)[:n]]
    known = hashes(ctx, pairs)
    calls = []

    def pw(**kw):
        calls.append(dict(op="pw", fill=r.choice([0, 0, 0x41, 0xff]), via=r.choice(["", "", "file"]), times=0, **kw))
    for p, h in known:
        for _ in range(ctx.pick(5, 6)):
            pw(field=near_hash(r, h).hex(), pw=near(r, p).hex())
        calls.append(dict(op="pw", fill=0, via="", times=r.choice([0, 0, 8]), field=(h + b"\0").hex(), pw=p.hex()))
    for b in [bytes(14), b"\0" * 13 + b"a", b"a" + bytes(13), b"ab" + bytes(12), b"abc" + bytes(11), b"*" + bytes(13), b"\xff" * 14, b"ab" + b" " * 12]:
        for p in (b"", b"\0", b"a", b"ab", b"password", b"*"):
            pw(field=b.hex(), pw=p.hex())
    for _ in range(ctx.pick(60, 1000)):     # whatever bytes
        pw(field=bytes(r.getrandbits(8) for _ in range(14)).hex(), pw=some_pw(r).hex())
        pw(field=(bytes(r.choice(SALT) for _ in range(13)) + b"\0").hex(), pw=some_pw(r).hex())
    r.shuffle(calls)
    files(ctx, chunked(calls, 12, "p"), "passwords checked")
    return ctx.finish()


# ---------------------------------------------------------------------------------------- records

# the layouts of spec/Layout.tla, read from it
def layouts():
    import re
    t = open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "Layout.tla")).read()
    out = {}
    for name in ("User", "Info", "File", "Board", "Formosa"):
        m = re.search(r"^%s == \[size \|-> (\d+).*?(<<<<.*?>>>>)" % name, t, re.S | re.M)
        o, fs = 0, []
        for f, w, k in re.findall(r'<<"(\w*)", (\d+), "(\w*)">>', m.group(2)):
            if f:
                fs.append((f, o, int(w), k))
            o += int(w)
        out[name.lower()] = (int(m.group(1)), fs)
    return out


class Rec:
    """random records of a layout"""

    def __init__(self, rng, lay):
        self.r, self.g = rng, G(rng)
        self.lay = lay
        self.size, self.fs = layouts()[lay]

    def text(self, w, k, lay, f, over=False):
        """the bytes of a text of up to w bytes"""
        r = self.r
        n = r.choice([0, 1, w, w, w - 1, r.randint(0, w)]) if w > 1 else r.choice([0, 1])
        if over and r.random() < 0.4:
            return self.g.ascii(w + r.choice([1, 2, 20])).encode()
        if k == "b5" and r.random() < 0.6:
            return self.g.big5(max(0, n))
        if k == "str" and lay in ("file", "formosa", "board") and r.random() < 0.3:
            return bytes(r.randint(1, 255) for _ in range(n))       # these are kept as bytes
        return self.g.ascii(n).encode()

    def number(self, w):
        r = self.r
        return r.choice([0, 1, 2, (1 << (8 * w - 1)) - 1, 1 << (8 * w - 1), (1 << 8 * w) - 1, (1 << 8 * w) - 2, 255 % (1 << 8 * w),
                         r.getrandbits(8 * w), r.getrandbits(8 * w), r.getrandbits(8 * w), 1 << r.randrange(8 * w)])

    def raw(self, garbage=0.5):
        r = self.r
        b = bytearray(self.size) if r.random() < 0.4 else bytearray(r.getrandbits(8) for _ in range(self.size))
        for f, o, w, k in self.fs:
            if k in ("str", "b5"):
                t = self.text(w, k, self.lay, f)
                rest = w - len(t)
                if rest and r.random() < garbage:
                    t += b"\0" + bytes(r.getrandbits(8) for _ in range(rest - 1))
                b[o:o + w] = fixed(t, w)
            elif k == "raw":
                b[o:o + w] = bytes(r.getrandbits(8) for _ in range(w)) if r.random() < 0.7 else bytes([r.choice([0, 255, 128])]) * w
            elif k == "bool":
                b[o] = r.choice([0, 1, 1, 2, 255, 128])
            else:
                b[o:o + w] = self.number(w).to_bytes(w, "little")
        return bytes(b)

    def value(self, f, w, k):
        r = self.r
        if k in ("str", "b5"):
            return self.text(w, k, self.lay, f, over=True).hex()
        if k == "raw":
            return bytes(r.getrandbits(8) for _ in range(w)).hex()
        if k == "bool":
            return r.randint(0, 1)
        n = self.number(w)
        if k in ("i8", "i16", "i32") and n >= 1 << (8 * w - 1):
            n -= 1 << 8 * w
        return [n >> 16, n & 0xffff] if w == 4 else n

    def sets(self):
        r = self.r
        fs = list(self.fs)
        if self.lay == "file":
            fs = [x for x in fs if x[0] != "union"] + [("money", 120, 4, "u32"), ("anno", 120, 4, "u32"), ("vl", 120, 4, "raw")]
        n = r.choice([1, 1, 2, 4, len(fs)])
        return [{"f": f, "v": self.value(f, w, k)} for f, _, w, k in r.sample(fs, min(n, len(fs)))]


def records(ctx, lays, shown):
    r = ctx.rng
    vals = [v for v in values(ctx, "LayoutModel", "LayoutModel.cfg") if v["lay"] in lays]
    calls = []
    for v in vals:
        g = Rec(r, v["lay"])
        calls.append(dict(op="codec", lay=v["lay"], via="", c=v["c"], k=0, set=g.sets() if r.random() < 0.5 else []))
    ctx.extra.setdefault("model_records", len(vals))
    for lay in lays:
        g = Rec(r, lay)
        n = ctx.pick(500, 4000) // (3 if lay == "info" else 1)
        for _ in range(n):
            calls.append(dict(op="codec", lay=lay, via=r.choice(["", "", "file"]), c=g.raw().hex(), k=0, set=g.sets()))
        for f, o, w, k in g.fs:            # each field set by itself
            if lay == "file" and f == "union":
                continue
            for _ in range(ctx.pick(2, 12)):
                calls.append(dict(op="codec", lay=lay, via="", c=g.raw().hex(), k=0, set=[{"f": f, "v": g.value(f, w, k)}]))
        for _ in range(ctx.pick(40, 600) // (4 if lay == "info" else 1)):      # files of some records
            n = r.choice([0, 1, 2, 3, 5, 9])
            c = b"".join(g.raw() for _ in range(n))
            if r.random() < 0.3:
                c += bytes(r.choice([1, 2, g.size // 2, g.size - 1, r.randrange(1, g.size)]))
            calls.append(dict(op="codec", lay=lay, via="file", c=c.hex(), k=r.randrange(n) if n else 0, set=g.sets()))
        if lay == "board":                     # every setting alone, all but it, and pairs of them
            for k in range(32):
                for m in [1 << k, (1 << 32) - 1 - (1 << k)] + [(1 << k) | (1 << j) for j in r.sample(range(32), ctx.pick(2, 31))]:
                    c = bytearray(g.raw())
                    c[104:108] = m.to_bytes(4, "little")
                    calls.append(dict(op="codec", lay=lay, via="", c=bytes(c).hex(), k=0, set=[]))
        if lay == "file":
            for m in range(256):               # every file mode
                c = bytearray(g.raw())
                c[124] = m
                calls.append(dict(op="codec", lay=lay, via="", c=bytes(c).hex(), k=0, set=g.sets()))
        for n in ctx.pick([17, 40], [16, 17, 64, 65, 128, 129, 300]):
            if lay == "info":
                n = n // 4
            calls.append(dict(op="codec", lay=lay, via="file", c=b"".join(g.raw() for _ in range(n)).hex(), k=r.randrange(n), set=g.sets()))
    r.shuffle(calls)
    files(ctx, chunked(calls, 10, "r"), shown)
    files(ctx, at_once(r, chunked(calls, 10, "r"), ctx.pick(30, 300)), shown + " at the same time")


def c12(ctx):
    records(ctx, ["file", "board", "formosa"], "article and board records read and written")
    return ctx.finish()


def c13(ctx):
    r = ctx.rng
    records(ctx, ["user", "info"], "account and session records read and written")
    g = Rec(r, "user")
    scripts = []
    for k in range(ctx.pick(60, 800)):       # account lists of homes
        w = World(r, homes=r.choice([1, 2]), boards=1, users=1)
        for h in w.homes:
            w.open(h, h)
            if r.random() < 0.9:
                n = r.choice([0, 1, 2, 3, 5, 12])
                c = b"".join(g.raw() for _ in range(n)) + bytes(r.choice([0, 0, 0, 1, 511]))
                p = "h%d/.PASSWDS" % h
                w.calls.append(dict(op="put", path=p, kind="val", c=c.hex(), anc=anc(p, False)))
            elif r.random() < 0.5:
                w.calls.append(mkdir("h%d/.PASSWDS" % h))
        for _ in range(3):
            w.add(op="users", h=r.choice(w.homes))
        scripts.append(w.script("u%d" % k, snap=1))
    files(ctx, scripts, "account lists of homes", "BBSTrace")
    files(ctx, at_once(r, scripts, ctx.pick(20, 200)), "account lists at the same time", "BBSTrace")
    calls = []
    for k in range(ctx.pick(6, 40)):         # very many accounts, most of them empty
        n = (1 << 16) + 1 if k == 0 else r.choice([127, 128, 255, 256, 1023, 4096, 32767, 32768, 65535, 65536, 150000]) + r.choice([0, 1, 2])
        pre = []
        for i in sorted({0, n - 1, n - 2, n // 2} | {x + d for x in (127, 255, 256, 4095, 32768, 65535, 65536) for d in (-1, 0, 1) if x + d < n}):
            uid, posts = b"u%d" % i, r.getrandbits(32)
            raw = bytearray(512)
            raw[4:4 + len(uid)] = uid
            raw[92:96] = struct.pack("<I", posts)
            pre.append(dict(i=i, raw=raw.hex(), v=dict(id=uid.hex(), posts=str(posts))))
        calls.append(dict(op="sparse", kind="pwd", n=n, pre=pre, act="list"))
    files(ctx, chunked(calls, 1, "big"), "very many accounts")
    return ctx.finish()


# ---------------------------------------------------------------------------------------- logs of logins

DAYS = ["Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun"]
LOGIN_ID = "".join(chr(c) for c in range(33, 127))


def when(r):
    import datetime
    k = r.random()
    if k < 0.1:
        return r.choice([(1970, 1, 1, 0, 0, 0), (2000, 2, 29, 23, 59, 59), (1999, 12, 31, 23, 59, 59), (2038, 1, 19, 3, 14, 8), (1, 1, 1, 0, 0, 0),
                         (9999, 12, 31, 23, 59, 59), (2100, 2, 28, 12, 0, 0), (2004, 2, 29, 12, 0, 0), (2020, 1, 1, 12, 0, 0), (1752, 9, 14, 0, 0, 0)])
    lo, hi = (1, 3652059) if k < 0.3 else (730000, 745000)
    d = datetime.date.fromordinal(r.randint(lo, hi))
    return (d.year, d.month, d.day, r.randrange(24), r.randrange(60), r.randrange(60))


def stamp(t):
    import datetime
    y, m, d, H, M, S = t
    return "[%02d/%02d/%04d %02d:%02d:%02d %s]" % (m, d, y, H, M, S, DAYS[datetime.date(y, m, d).weekday()])


def login_id(r):
    return "".join(r.choice(LOGIN_ID) for _ in range(r.choice([1, 2, 11, 12, 12, r.randint(1, 12)])))


def login_host(r, site, recent=False):
    k = r.random()
    if k < 0.5:
        h = ".".join(str(r.choice([0, 1, 10, 172, 255, r.randrange(256)])) for _ in range(4)).encode()
    elif k < 0.6:
        h = b"2001:db8::" + b"%x" % r.randrange(65536)
    elif k < 0.7:
        h = b""
    elif k < 0.8:
        h = bytes(r.choice([x for x in range(1, 256) if x not in (10, 13)]) for _ in range(r.randint(1, 30)))
    else:
        h = "".join(chr(r.randint(33, 126)) for _ in range(r.choice([1, 2, 16, 60, r.randint(1, 200)]))).encode()
    if r.random() < 0.12:                  # what stands before the host, once more, in part, and behind it
        h = r.choice([b"?@", b"?@?@", b"?", b"@", b"@?", b"a@", b"?@ ", b" ?@"]) + h + r.choice([b"", b"", b"?@", b"@h", b"]"])
    if recent:
        h = h.replace(b" ", b"_") or b"h"
    if not site and h.startswith(b"?@"):
        h = b"x" + h
    return h


def login_line(r, kind):
    t = when(r)
    if kind == "recent":
        return ("%02d/%02d/%04d %02d:%02d:%02d " % (t[1], t[2], t[0], t[3], t[4], t[5])).encode() + login_host(r, True, True) + b" " * r.choice([0, 0, 0, 1, 5])
    if r.random() < 0.55:
        return (r.choice(" -") + login_id(r).ljust(12) + stamp(t) + " ?@").encode() + login_host(r, True)
    return (stamp(t) + " ").encode() + login_host(r, False)


def login_damaged(r, l):
    b = bytearray(l)
    for _ in range(r.choice([1, 1, 1, 2])):
        k = r.random()
        p = r.randrange(len(b)) if b else 0
        if k < 0.25:
            b = b[:p]
        elif k < 0.5 and b:
            b[p] = r.choice(b" -[]/:?@0139Zz.\x00\xff")
        elif k < 0.65 and b:
            del b[p]
        elif k < 0.8:
            b.insert(p, r.choice(b" 019-["))
        elif k < 0.9:
            b = b[p:]
        else:
            b = bytearray(r.choice([b"", b" ", b"-", b"[", b"]", b"  ", b"-" * 13, b"\x00", b"[" * 26, b" " * 40]))
    return bytes(b).replace(b"\n", b"")


def login_file(r, kind, n, damaged):
    ls = [login_line(r, kind) for _ in range(n)]
    for _ in range(damaged):
        if ls:
            p = r.randrange(len(ls))
            ls[p] = login_damaged(r, ls[p])
    end = b"\r\n" if r.random() < 0.05 else b"\n"
    c = end.join(ls)
    if ls and (r.random() < 0.8 or not ls[-1]):
        c += end
    if r.random() < 0.05:
        c += b"\n"
    return c


def c15(ctx):
    r = ctx.rng
    vals = values(ctx, "LoginModel", "LoginModel.cfg")
    calls = []

    def log(kind, via, c):
        calls.append(dict(op="logins", kind=kind, via=via, c=c.hex(), used=r.choice([0, 1])))
    for v in vals:
        log(v["kind"], "line", bytes.fromhex(v["c"]))
    r.shuffle(vals)
    for kind in ("bad", "recent"):           # the same lines, some per file
        vs = [bytes.fromhex(v["c"]) for v in vals if v["kind"] == kind]
        for k in range(0, len(vs), 7):
            log(kind, "file", b"".join(x + b"\n" for x in vs[k:k + r.choice([1, 2, 4])]))
        for _ in range(ctx.pick(300, 5000)):
            log(kind, "line", login_line(r, kind))
            log(kind, "line", login_damaged(r, login_line(r, kind)))
            log(kind, "file", login_file(r, kind, r.choice([0, 1, 2, 3, 5, 9]), r.choice([0, 0, 0, 1, 1, 2])))
        for n in ctx.pick([60, 150], [60, 100, 150, 300, 700]):          # longer than what is read at once
            log(kind, "file", login_file(r, kind, n, 0))
            log(kind, "file", login_file(r, kind, n, 1))
    for k in range(ctx.pick(400, 5000)):
        i = login_id(r) if r.random() < 0.7 else ""
        calls.append(dict(op="loginw", s=r.choice([0, 1]) if i else 0, id=i.encode().hex(), t=list(when(r)), host=login_host(r, bool(i)).hex()))
    r.shuffle(calls)
    files(ctx, chunked(calls, 30, "l"), "logs of logins")
    files(ctx, at_once(r, chunked(calls, 12, "l"), ctx.pick(30, 300)), "logs at the same time")
    for kind in ("bad", "recent"):           # a line of any length
        for n in ctx.pick([4000, 66000], [4000, 4096, 60000, 66000, 140000]):
            for tail in (0, 1):
                pre = login_line(r, kind)
                long = (stamp(when(r)) + " " if kind == "bad" else "01/02/2006 15:04:05 ").encode() + b"h" * n
                c = pre + b"\n" + long + b"\n" + (login_line(r, kind) + b"\n" if tail else b"")
                calls.append(dict(op="logins", kind=kind, via="file", c=c.hex(), used=0))
    files(ctx, chunked(calls[-ctx.pick(8, 20):], 4, "L"), "lines of any length")
    import p_robust
    files(ctx, p_robust.read_faults(ctx, ctx.pick(6, 60), ["bad", "recent", "sitebad"], ["EIO", "EACCES"]), "logs that cannot be read to the end", "RobustTrace")
    return ctx.finish()


# ---------------------------------------------------------------------------------------- shared memory

def shm_places(ctx, cfgs):
    """where the records are, computed by the specification"""
    f = os.path.join(ctx.scratch, "shm.ndjson")
    with open(f, "w") as fh:
        for c in cfgs:
            fh.write(json.dumps(c) + "\n")
    return [(v["cfg"], v["pos"]) for v in values(ctx, "ShmGen", "ShmGen.cfg", envs={"TRACE": f})]


def shm_tour(ctx):
    o = ctx.model("ShmModel", "ShmModel_%s.cfg" % ctx.pick("q", "t"), envs=dict(TOUR="1"))
    _, g, n = tour.graph(o)
    ws = tour.walks([], g, n, 0, ctx.rng, 60)
    out = [{"id": "T%d" % k, "kind": "seq", "calls": w, "opt": {}} for k, w in enumerate(ws)]
    ctx.extra.setdefault("tours", []).append({"model": "ShmModel", "model_states": n, "walks": len(ws), "model_transitions_performed": sum(len(v) for v in g.values())})
    return out


def shm_history(ctx, k):
    r = ctx.rng
    calls, hs, names = [], {}, {}     # handle -> [name, size, open]; name -> [id, size]
    ids = [0]
    files_, keys = ["x", "y"], ["0", "1"]

    def users(n, closed=False):
        return [h for h, v in hs.items() if v[0] == names.get(n, [None])[0] and v[2]]
    hc = [0]
    for _ in range(r.choice([8, 20, 40])):
        kind = r.choice(["file", "key"])
        n = r.choice(files_ if kind == "file" else keys)
        nm = kind + ":" + n
        opened = [h for h, v in hs.items() if v[2]]
        closed = [h for h, v in hs.items() if not v[2]]
        op = r.choice(["create", "create", "open", "open", "write", "write", "write", "read", "read", "close", "close", "again", "remove", "look", "gc", "put", "badconn"])
        hc[0] += 1
        hd = "h%d" % hc[0]
        if len(opened) >= 5 and op in ("create", "open"):
            op = "close"
        if op == "create":
            size = r.choice([1, 2, 13, 100, 4096, 5000, r.randint(1, 300)])
            where = "nodir" if r.random() < 0.05 else ""
            if kind == "file" and nm in names and where == "":
                if users(nm):
                    size = max([hs[h][1] for h in users(nm)] + [names[nm][1]])
            if r.random() < 0.06 and not users(nm):
                calls.append(dict(op="shmcreate", kind=kind, n=n, hd=hd, size=r.choice([0, -1]), where=where))
                if kind == "file" and where == "":
                    calls.append(dict(op="shmlook", kind=kind, n=n))
                    calls.append(dict(op="shmremove", kind=kind, n=n))
                    names.pop(nm, None)
                elif kind == "key" and calls[-1]["size"] == 0 and nm in names:
                    pass
                continue
            calls.append(dict(op="shmcreate", kind=kind, n=n, hd=hd, size=size, where=where))
            if where:
                continue
            if kind == "key" and nm in names:
                continue                     # may be refused: the handle is not used
            if nm not in names:
                ids[0] += 1
                names[nm] = [ids[0], size]
            names[nm][1] = size
            hs[hd] = [names[nm][0], size, 1]
        elif op == "open":
            calls.append(dict(op="shmopen", kind=kind, n=n, hd=hd, via=r.choice(["open", "conn"] + (["plain"] if kind == "file" else []))))
            if nm in names:
                hs[hd] = [names[nm][0], names[nm][1], 1]
        elif op == "badconn":
            calls.append(dict(op="shmopen", kind=kind, n=n, hd=hd, via="bad", conn=r.choice(["shmkey:", "shmkey:x", "shmkey:1x", "shm:1", "nosuch:thing", ":", "file:", "", "shmkey:99999999999999999999"])))
        elif op == "put" and kind == "file" and not users(nm):
            size = r.choice([1, 50, 5000, r.randint(1, 200)])
            calls.append(dict(op="shmput", kind=kind, n=n, size=size, ps=[{"at": r.randrange(size), "x": "%02x" % r.getrandbits(8)}]))
            if nm not in names:
                ids[0] += 1
                names[nm] = [ids[0], size]
            names[nm][1] = size
        elif op == "write" and opened:
            h = r.choice(opened)
            at = r.choice([0, hs[h][1] - 1, r.randrange(hs[h][1])])
            w = r.randint(1, min(20, hs[h][1] - at))
            calls.append(dict(op="shmwrite", hd=h, at=at, x=bytes(r.getrandbits(8) for _ in range(w)).hex()))
            for g in opened:
                if hs[g][0] == hs[h][0] and r.random() < 0.7:
                    calls.append(dict(op="shmread", hd=g))
        elif op == "read" and opened:
            calls.append(dict(op="shmread", hd=r.choice(opened)))
        elif op == "close" and opened:
            h = r.choice(opened)
            calls.append(dict(op="shmclose", hd=h))
            hs[h][2] = 0
            if r.random() < 0.5:
                for g in opened:
                    if g != h:
                        calls.append(dict(op="shmread", hd=g))
        elif op == "again" and closed:
            calls.append(dict(op="shmclose", hd=r.choice(closed)))
            for g in opened:
                calls.append(dict(op="shmread", hd=g))
        elif op == "remove":
            calls.append(dict(op="shmremove", kind=kind, n=n))
            names.pop(nm, None)
        elif op == "look" and kind == "file":
            calls.append(dict(op="shmlook", kind=kind, n=n))
        elif op == "gc" and r.random() < 0.3:
            calls.append(dict(op="shmgc"))
    for h, v in hs.items():
        if v[2]:
            calls += [dict(op="shmread", hd=h), dict(op="shmclose", hd=h)]
    return {"id": "m%d" % k, "kind": "seq", "calls": calls, "opt": {}}


def shm_layout(ctx, k, cfg, pos):
    r = ctx.rng
    g = Rec(r, "info")
    t = G(r)
    idw = cfg["idlen"] + 1
    us = list(range(cfg["users"]))
    if len(us) > 6:
        us = sorted(set([0, 1, cfg["users"] - 1] + r.sample(us, 3)))
    filler = bytes(r.choice([0, 0xee, 0x41]) for _ in range(1))

    def user_id():
        n = r.choice([0, 1, cfg["idlen"], idw, r.randint(0, idw)])
        b = t.ascii(n).encode()
        return b + (b"\0" + bytes(r.getrandbits(8) for _ in range(idw - n - 1)) if n < idw else b"")
    ps = []
    size = pos["end"] + r.choice([0, 0, 1, 4000])
    if size <= 300000:                      # what lies between is not zero
        ps.append({"at": 0, "x": (filler * size).hex()})
    ps.append({"at": 0, "x": bytes(r.getrandbits(8) for _ in range(8)).hex()})
    for u in us:
        for v in sorted({max(0, u - 1), u, min(cfg["users"] - 1, u + 1)}):
            ps.append({"at": pos["userid"] + v * idw, "x": user_id().hex()})
            ps.append({"at": pos["money"] + 4 * v, "x": bytes(r.getrandbits(8) for _ in range(4)).hex()})
        ps.append({"at": pos["info"] + 3484 * u, "x": g.raw(0.8).hex()})
    kind = r.choice(["file", "file", "key"])
    n = "0" if kind == "key" else r.choice(["x", "a:b", "a b", "shmkey"])
    via = r.choice(["conn", "conn", "plain"]) if kind == "file" and ":" not in n else "conn"
    calls = [dict(op="shmput", kind=kind, n=n, size=size, ps=ps), dict(op="shmopen", kind=kind, n=n, hd="p", via=via, cfg=cfg)]

    def get(what, u=0, **kw):
        calls.append(dict(op="shmget", hd="p", what=what, u=u, **kw))
    get("version")
    for u in us:
        get("userid", u)
        get("money", u)
        get("info", u, slot="s%d" % u)
    for u in us:
        calls.append(dict(op="shmkept", slot="s%d" % u))
    if k % 3 == 0 and len(us) > 1:
        calls.append(dict(op="parallel", reps=300, calls=[dict(op="shmget", hd="p", what=w, u=u) for w in ("userid", "money", "info") for u in us][:8]))
    calls.append(dict(op="shmopen", kind=kind, n=n, hd="q", via="open"))
    for _ in range(3):
        u = r.choice(us)
        for what, at, x in [("userid", pos["userid"] + u * idw, user_id()), ("money", pos["money"] + 4 * u, bytes(r.getrandbits(8) for _ in range(4))),
                            ("info", pos["info"] + 3484 * u, g.raw(0.8)), ("version", 0, bytes(r.getrandbits(8) for _ in range(4)))]:
            calls.append(dict(op="shmwrite", hd="q", at=at, x=x.hex()))
            get(what, u)
            calls.append(dict(op="shmkept", slot="s%d" % u))
    u = r.choice(us)
    calls.append(dict(op="shmclose", hd=r.choice("pq")))
    if calls[-1]["hd"] == "p":
        calls.append(dict(op="shmwrite", hd="q", at=pos["info"] + 3484 * u, x=g.raw().hex()))
    calls += [dict(op="shmkept", slot="s%d" % u) for u in us]
    return {"id": "l%d" % k, "kind": "seq", "calls": calls, "opt": {}}


def c16(ctx):
    r = ctx.rng
    files(ctx, shm_tour(ctx), "every call in every state of the model", "ShmTrace")
    files(ctx, [shm_history(ctx, k) for k in range(ctx.pick(700, 8000))], "histories of caches", "ShmTrace")
    cfgs = []
    for k in range(ctx.pick(60, 700)):
        cfgs.append(dict(align=r.choice([0, 1, 2, 4, 8]), users=r.choice([1, 2, 3, r.randint(1, 9)]), idlen=r.choice([12, 12, 1, 4, 7, r.randint(1, 20)]),
                         cool=r.choice([0, 1]), bits=r.choice([0, 1, 2, 3, 7, r.randint(0, 9)])))
    cfgs += [dict(align=a, users=u, idlen=12, cool=c, bits=b) for a, c in ((4, 0), (4, 1), (8, 1), (1, 0), (0, 0)) for u, b in ((50, 16), (200, 12))]
    files(ctx, [shm_layout(ctx, k, c, p) for k, (c, p) in enumerate(shm_places(ctx, cfgs))], "records in the shared memory", "ShmTrace")
    return ctx.finish()


# ---------------------------------------------------------------------------------------- texts

def utf8(cps):
    return "".join(map(chr, cps)).encode("utf-8")


class Texts:
    def __init__(self, rng, tab):
        self.r = rng
        self.dec = tab["dec"]
        self.codes = [i + 0x8140 for i, u in enumerate(tab["dec"]) if u]
        self.plain = [u for u, g in enumerate(tab["has"]) if g == 3]
        self.plain += [0x6e2f, 0x5305] * 40

    def cps(self, n, loose=0.0):
        r, out = self.r, []
        for _ in range(n):
            k = r.random()
            if k < loose:
                out.append(r.choice([0x80, 0xe9, 0x2022, 0x3042, 0xfffd, 0xffff, 0x1f600, 0x20000, 0x10ffff, 0x2550, 0xd7ff, 0xe000, r.randrange(0x80, 0xd800)]))
            elif k < loose + 0.35:
                out.append(r.choice([0, 9, 10, 13, 26, 27, 32, 65, 127, r.randrange(128)]))
            else:
                out.append(r.choice(self.plain))
        return out

    def bytes(self, n):
        """codes, parts of codes and what is no code; codes nobody knows stand alone"""
        r, out = self.r, b""
        for _ in range(n):
            k = r.random()
            if k < 0.5:
                out += struct.pack(">H", r.choice(self.codes))
            elif k < 0.75:
                out += bytes([r.choice([0, 9, 10, 13, 27, 32, 64, 65, 92, 126, 127, r.randrange(128)])])
            elif k < 0.9:
                out += bytes([r.choice([0x80, 0x81, 0xa0, 0xa4, 0xf9, 0xfe, 0xff, r.randrange(128, 256)])])
            else:
                out += b"." + bytes([r.randrange(0x81, 0xff), r.randrange(0x40, 0x100)]) + b"."
        return out

    def ansi(self, n):
        r, out = self.r, b""
        for _ in range(n):
            k = r.random()
            if k < 0.5:
                p = ";".join(str(r.choice([0, 1, 7, 33, 137, 1337, 10000, ""])) for _ in range(r.choice([0, 1, 1, 2, 3, 5])))
                out += r.choice([b"\x1b", b"\x1b", b"\xc2\x9b"]) + r.choice([b"[", b"[", b"[", b"", b"(", b"[[", b"]", b"#", b"[?"]) + p.encode() + r.choice([b"m", b"m", b"m", b"H", b"J", b"K", b"A", b"\x07", b"x", b"s", b"", b"~"])
            elif k < 0.6:
                out += r.choice([b"\x1b", b"\xc2", b"\x9b", b"[31m", b"\x1b\x1b[m", b"\x1b]0;t\x07", b"\xff", b"\n"])
            elif k < 0.8:
                out += G(r).ascii(r.randint(0, 6)).encode()
            else:
                out += utf8(self.cps(r.randint(1, 4), 0.2))
        return out


def c24(ctx):
    import mktext
    r = ctx.rng
    tab = mktext.table()
    os.environ["TEXTTAB"] = os.path.join(ctx.scratch, "text.json")
    json.dump(tab, open(os.environ["TEXTTAB"], "w"), separators=(",", ":"))
    x = Texts(r, tab)
    items, calls = [], []
    for v in values(ctx, "TextModel", "TextModel_%s.cfg" % ctx.pick("q", "t")):
        b = bytes(v).hex()
        items += [dict(k="dec", b=b), dict(k="cstr", b=b), dict(k="ansi", b=b)]
    def flush(n=1, size=100):
        for k in range(0, len(items), size):
            calls.append(dict(op="conv", items=items[k:k + size], n=n))
        del items[:]
    flush()
    # every code and every character
    for hi in range(256):
        for a in range(0, 256, 64):
            items.append(dict(k="dec", b="".join("%02x%02x2e" % (hi, lo) for lo in range(a, a + 64))))
    chars = [c for c in range(0x10000) if not 0xd800 <= c < 0xe000]
    chars += list(range(0x10000, 0x30000)) if not ctx.quick else r.sample(range(0x10000, 0x30000), 4000) + list(range(0x20000, 0x20400))
    for a in range(0, len(chars), 64):
        items.append(dict(k="enc", t=chars[a:a + 64]))
    flush(size=20)
    for _ in range(ctx.pick(3000, 120000)):
        k = r.random()
        if k < 0.35:
            items.append(dict(k="dec", b=x.bytes(r.choice([1, 2, 3, 5, 12])).hex()))
        elif k < 0.65:
            items.append(dict(k="enc", t=x.cps(r.choice([1, 2, 3, 8, 20]), r.choice([0, 0, 0.1, 0.5]))))
        elif k < 0.8:
            items.append(dict(k="cstr", b=bytes(r.choice([0, 0, 1, 65, 0xa4, 255, r.randrange(256)]) if r.random() < 0.4 else r.randrange(1, 256) for _ in range(r.choice([0, 1, 2, 13, 40]))).hex()))
        else:
            items.append(dict(k="ansi", b=x.ansi(r.choice([1, 2, 3, 6, 10])).hex()))
    flush(size=50)
    # long texts: a character on every side of the sizes of buffers
    for n in (127, 128, 255, 256, 511, 512, 1023, 1024, 2047, 2048, 4094, 4095, 4096, 4097, 8191, 8192) + ctx.pick((), (16383, 16384, 32767, 65535)):
        for c in (0x6e2f, r.choice(x.plain)):
            a = r.randint(0, 2)
            t = [65] * a + [c] * ((n - a) // 2 + 1) + x.cps(3)
            u = x.cps(n)
            items += [dict(k="enc", t=t[-4200 * ctx.pick(1, 8):]), dict(k="enc", t=u[:4200 * ctx.pick(1, 8)])]
    flush(size=2)
    # many callers at once
    for k in range(ctx.pick(25, 1000)):
        for _ in range(r.randint(2, 8)):
            n = r.choice([1, 3, 10, 60])
            items.append(r.choice([dict(k="dec", b=x.bytes(n).hex()), dict(k="enc", t=x.cps(n, 0.1)), dict(k="enc", t=x.cps(4 * n)), dict(k="ansi", b=x.ansi(min(n, 10)).hex()), dict(k="cstr", b=x.bytes(n).hex())]))
        flush(n=r.choice([2, 4, 8]))
    scripts = chunked(calls, 4, "t")
    hist = ctx.drive(scripts)
    ctx.extra["conversions"] = sum(len(e.get("items", [])) for h in hist for e in h["ev"])
    ctx.check("TextTrace", hist, "texts converted", scripts=scripts)
    return ctx.finish()


CHECKS = {"C24": c24, "C11": c11, "C12": c12, "C13": c13, "C14": c14, "C15": c15, "C16": c16}
