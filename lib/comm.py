"""Articles with comment lines, and populations of boards for the listings."""
from hist import *

PUSH = [b"\xb1\xc0 ", b"\xa1\xf7 ", b"\xbcN ", b"", b"# ", b" "]
CODES = [b"\x1b[m", b"\x1b[1;37m", b"\x1b[33m", b"\x1b[0;1;31;40m", b"\x1b[K", b"\xc2\x9b31m", b"\x1b]0;a;b\x07", b"\x1b(0",
         b"\x1b#8", b"\x1b[?25h", b"\x1b7", b"\x1b=", b"\x1b[2J", b"\x1b[12;34H", b"\x1bM", b"\x1b[1;1;1;1;1m", b"\x1b[;m"]
BROKEN = [b"\x1b", b"\x1b[", b"\x1b[1;", b"\x9b1m", b"\xc2", b"\x1b[99999m", b"\x1b\x1b[m", b"\x1b[1;3X", b"\x1b[123456;7m", b"\x1b[1;23456m"]
NAMES = ["alice", "Alice", "SYSOP", "bob", "ab", "A1", "twelveletter", "x9y", "alic", "alice2", "alicebob"]
ODD = [b"a", b"1", b"1ab", b"9", b"a_b", b"", b"a.b", b"a b", b"\xb1\xc0ab", b"a1", b"11a1", b"7z"]
STAMPS = [b"10/12 13:45", b"01/01 00:00", b"12/31 23:59", b"02/29 08:08", b"06/30 12:00"]
BADSTAMPS = [b"13/01 10:00", b"00/10 10:00", b"02/30 10:00", b"04/31 01:01", b"10/12 24:00", b"10/12 23:60", b"10/00 10:00",
             b"10/12\t13:45", b"99/99 99:99"]
NEAR = [b"1/12 13:45", b"10/12  13:45", b"10-12 13:45", b"10/12 13.45", b"10/1213:45", b"10/12 13:4", b"110/12 13:456"]
TXT = [b"hello", b" see http://a.b/c:80 ", b"a: b: c", b":", b"::", b"10/12 13:45 again", b"\xa7A\xa6n", b"[x]", b"  two  ", b"\t",
       b"bob: no", b"\xff\xfe", b"q=1&r=2", b"", b" ", b"99:99", b"x\x0by", b"\xc2\xa0", b"\xc2\x85", b"\x00", b"\x7f\x08", b"\xe3\x80\x80"]


class Lines:
    def __init__(self, rng):
        self.r = rng

    def codes(self, p=0.3):
        return self.r.choice(CODES) if self.r.random() < p else (self.r.choice(BROKEN) if self.r.random() < 0.03 else b"")

    def comment(self, user=None, stamp=None):
        r = self.r
        u = user or r.choice(NAMES)
        ub = u.encode()
        if r.random() < 0.1:
            k = r.randrange(len(ub) + 1)
            ub = ub[:k] + r.choice(CODES) + ub[k:]
        st = stamp or r.choice(STAMPS)
        if r.random() < 0.5:
            st = b"%02d/%02d %02d:%02d" % (r.randint(1, 12), r.randint(1, 28), r.randint(0, 23), r.randint(0, 59))
        if r.random() < 0.05:
            k = r.randrange(len(st) + 1)
            st = st[:k] + r.choice(CODES) + st[k:]
        txt = b"".join(r.choice(TXT) + self.codes(0.1) for _ in range(r.randint(0, 3)))
        if r.random() < 0.5:
            txt = hx2(r, 30)
        pad = b" " * r.choice([0, 1, 1, 2, 20])
        return (self.codes() + r.choice(PUSH) + self.codes() + ub + self.codes(0.2) * (r.random() < 0.5) + b":" + self.codes() +
                r.choice([b" ", b"", b"  "]) + txt + pad + self.codes() + r.choice([b" ", b"", b" 1.2.3.4 "]) + st +
                self.codes(0.1) + r.choice([b"", b"", b"", b" ", b" tail", b"5"]))

    def other(self):
        r = self.r
        k = r.random()
        if k < 0.2:
            return b""
        if k < 0.4:
            return bytes(r.getrandbits(8) for _ in range(r.randint(1, 60))).replace(b"\n", b"")
        if k < 0.6:
            return r.choice([b"\xa7@\xaa\xcc: alice (nick) \xac\xdd\xaaO: Test", b"\xae\xc9\xb6\xa1: Thu Mar  2 10:12:13 2017", b"--",
                             b"\xa1\xb0 \xb5o\xabH\xaf\xb8: site, from: 1.2.3.4", b": quoted 10/12 13:45", b"alice: no time", b"just 10/12 13:45",
                             b"10/12 13:45 alice: after"])
        return (r.choice(PUSH) + r.choice([n.encode() for n in NAMES] + ODD) + r.choice([b":", b" :", b"", b": "]) + hx2(r, 10) +
                r.choice(NEAR + STAMPS + [b""]))

    def bad(self):
        return self.comment(stamp=None).rsplit(b" ", 1)[0] + b" " + self.r.choice(NAMES).encode() + b": x " + self.r.choice(BADSTAMPS)

    def article(self, n, pbad=0.0, users=None):
        r = self.r
        out = b""
        for k in range(n):
            x = r.random()
            ln = (self.bad() if x < pbad else self.comment(r.choice(users) if users else None) if x < 0.65 else self.other())
            ln = ln.replace(b"\n", b"")
            if k and r.random() < 0.08:          # the same again, or nearly
                ln = last if r.random() < 0.6 else last.replace(b"a", b"b", 1) if r.random() < 0.5 else last + b" "
            last = ln
            out += ln + (r.choice([b"\n"] * 8 + [b"\r\n", b"\r\n", b"\r", b"\n\n"]) if k < n - 1 or r.random() < 0.8 else b"")
        return out


def hx2(r, n):
    out = b""
    for _ in range(r.randint(0, n)):
        x = r.random()
        out += (r.choice(b"abcXYZ019 ./:-_").to_bytes(1, "big") if x < 0.8 else
                struct.pack(">H", r.choice(BIG5)) if x < 0.97 else bytes([r.getrandbits(8)]))
    return out.replace(b"\n", b"")


def c09_scripts(rng, n, pbad=0.02, maxl=10):
    out = []
    L = Lines(rng)
    for k in range(n):
        c = [mkdir("h0/boards/T/Test"), open_(0, 0)]
        for j in range(3):
            f = "M.%d.A.%03X" % (1500000000 + j, rng.randrange(4096))
            art = L.article(rng.choice([0, 1, 2, 3, maxl]), pbad if rng.random() < 0.3 else 0)
            c.append(put_text("h0/boards/T/Test/" + f, art.hex()))
            c.append(dict(op="comments", h=0, b="Test", f=f, fhex=hx(f)))
        if rng.random() < 0.2:
            f = rng.choice(["M.9.A.000", "", "x"])
            c.append(dict(op="comments", h=0, b=rng.choice(["Test", "", "None"]), f=f, fhex=hx(f)))
        out.append({"id": "c09r%d" % k, "kind": "seq", "calls": c, "opt": {}})
    return out


def c09_long(rng, n):
    """lines around the size of a line buffer, many comments"""
    out = []
    L = Lines(rng)
    for k in range(n):
        c = [mkdir("h0/boards/T/Test"), open_(0, 0)]
        base = L.comment("alice").replace(b"\n", b"")
        size = rng.choice([1000, 4095, 4096, 4097, 8192, 65400, 65535, 65536, 65537, 70000])
        filler = b"x" * max(0, size - 40)
        lines = [L.comment("bob").replace(b"\n", b"")]
        lines.append(rng.choice([filler, b"alice: " + filler + b" 10/12 13:45"]))
        lines += [L.comment("ab").replace(b"\n", b"")]
        c.append(put_text("h0/boards/T/Test/M.1.A.000", (b"\n".join(lines) + b"\n").hex()))
        c.append(dict(op="comments", h=0, b="Test", f="M.1.A.000", fhex=hx("M.1.A.000")))
        m = rng.choice([40, 150, 300])
        art = b"".join(b"%s: no %d 10/12 13:%02d\n" % (rng.choice(NAMES).encode(), i, i % 60) for i in range(m))
        c.append(put_text("h0/boards/T/Test/M.2.A.000", art.hex()))
        c.append(dict(op="comments", h=0, b="Test", f="M.2.A.000", fhex=hx("M.2.A.000")))
        out.append({"id": "c09l%d" % k, "kind": "seq", "calls": c, "opt": {}})
    return out


def c09_big(rng, sizes):
    """articles of many lines, with comments here and there"""
    L = Lines(rng)
    calls = []
    for size in sizes:
        segs, at = [], 0

        def seg(c, rep):
            nonlocal at
            segs.append(dict(c=c.hex(), rep=rep))
            at += len(c) * rep
        cuts = sorted(rng.sample(range(1, 100), rng.choice([0, 1, 2])))
        for e in [size * x // 100 for x in cuts] + [size]:
            fill = rng.choice([b"\n", b"x" * rng.choice([9, 60, 77, 999]) + b"\n", (lambda o: b"z\n" if b"/" in o else o + b"\n")(L.other()), b": " * 30 + b"\r\n"])
            n = (e - at) // len(fill)
            if n > 0:
                seg(fill, n)
            if e - at > 0:         # the following line begins, or ends, where it is told
                seg(b"y" * (e - at - 1) + b"\n", 1)
            line = L.comment(rng.choice(["alice", "bob", None])).replace(b"\n", b"") + b"\n"
            seg(line, rng.choice([1, 1, 3]))
        calls.append(dict(op="bigcomments", segs=segs))
    return calls


def population(rng, k, what):
    """boards with lists and articles, then listings"""
    w = World(rng, boards=rng.randint(1, 4), users=1)
    g = w.g
    L = Lines(rng)
    w.open(0, 0)
    bs = w.boards[0]
    if rng.random() < 0.5 and "ALLPOST" not in bs:
        bs.append("ALLPOST")
        w.calls.append(mkdir(board_dir("h0", "ALLPOST")))
    names = list(bs)
    rng.shuffle(names)
    if rng.random() < 0.15:
        names.append(rng.choice(names))        # a name twice
    if rng.random() < 0.15:
        names.insert(rng.randrange(len(names) + 1), "NoDir")
    stored = []
    for n in names:
        if rng.random() < 0.25:
            stored.append(g.board_stored(""))
        stored.append(g.board_stored(n))
    w.calls.append(put_brd("h0/.BRD", stored))
    for b in set(bs):
        if rng.random() < 0.15:
            continue          # no list
        es = []
        for j in range(rng.choice([0, 1, 2, 3, 5, 12] if what == "arts" else [0, 1, 2, 3])):
            e = g.stored()
            e["own"] = hx(rng.choice(NAMES + ["-", "alice.", "", "alice bob"]))
            if what == "comments":
                e["fn"] = hx("M.%d.A.%03X" % (1500000000 + j * rng.choice([0, 1, 1]), rng.randrange(4096)))
                x = rng.random()
                if es and rng.random() < 0.15:
                    e["fn"] = rng.choice(es)["fn"]      # an article with several entries
                elif x < 0.985:
                    art = L.article(rng.choice([0, 1, 3, 6]), 0.01 if rng.random() < 0.1 else 0,
                                    users=["alice", "Alice", "alic", "bob"] if rng.random() < 0.6 else None)
                    w.calls.append(put_text(board_dir("h0", b) + "/" + bytes.fromhex(e["fn"]).decode(), art.hex()))
            es.append(e)
            if rng.random() < 0.08:
                es.append(dict(e))
        w.calls.append(put_list(board_dir("h0", b) + "/.DIR", es))
    for u in rng.sample(NAMES, 3) + ["alice", rng.choice(["", "-", "nobody", "ALICE"])]:
        if what == "arts":
            w.add(op="uarts", h=0, u=hx(u))
        else:
            w.add(op="ucomments", h=0, u=hx(u))
            w.add(op="bcomments", h=0, b=rng.choice(bs), u=hx(u))
    if rng.random() < 0.1:
        w.add(op="bcomments", h=0, b=rng.choice(["", "NoDir2"]), u=hx("alice"))
    return w.script("c10%s%d" % (what, k))
