"""Histories of calls.  A script is {"id", "kind", "calls", ...}; what a call means is defined by
spec/BBS.tla.  The generators only choose; they compute no expected results, except the record
encodings of files that are there before (written as other programs of the BBS write them)."""
import json, random, struct
import mkbig5

# line-drawing characters with two codes in Big5 itself: what is written for them may be the other code
TWICE = {0xa27e, 0xa2a1, 0xa2a2, 0xa2a3, 0xa2a4, 0xa2a5, 0xa2a6, 0xa2a7}
BIG5 = [c for c, _ in mkbig5.table() if c not in TWICE]


def hx(s):
    return (s.encode("latin-1") if isinstance(s, str) else s).hex()


def anc(path, self_too=True):
    """the directories made by MkdirAll(path)"""
    p = path.split("/")
    n = len(p) + (1 if self_too else 0)
    return ["/".join(p[:k]) for k in range(1, n)]


def mkdir(path):
    return {"op": "mkdir", "path": path, "anc": anc(path)}


def put_text(path, c):
    return {"op": "put", "path": path, "kind": "text", "c": c, "anc": anc(path, False)}


def fixed(b, n):
    return b[:n] + b"\0" * (n - len(b[:n]))


def union_of(e):
    if e["mode"] & 0x40:
        return bytes(e["vl"])
    return struct.pack("<I", e["mon"][0] << 16 | e["mon"][1])


def enc_entry(e):
    """128-byte article entry"""
    return (fixed(bytes.fromhex(e["fn"]), 28) + struct.pack("<I", int(e["mod"])) + b"\0" +
            struct.pack("<b", e["rec"]) + fixed(bytes.fromhex(e["own"]), 14) + fixed(bytes.fromhex(e["date"]), 6) +
            fixed(bytes.fromhex(e["title"]), 65) + b"\0" + union_of(e) + bytes([e["mode"]]) + b"\0\0\0")


def enc_board(b):
    """256-byte board"""
    r = bytearray(256)
    r[0:13] = fixed(bytes.fromhex(b["id"]), 13)
    r[13:62] = fixed(bytes.fromhex(b["title"]), 49)
    r[62:101] = fixed(bytes.fromhex(b.get("rawbm", "")), 39)
    struct.pack_into("<I", r, 104, b["attr"][0] << 16 | b["attr"][1])
    return r


def finish_board(b):
    r = enc_board(b)
    # offsets as in struct boardheader_t
    struct.pack_into("<I", r, 124, b["lvl"][0] << 16 | b["lvl"][1])
    struct.pack_into("<i", r, 132, int(b["gid"]))
    return bytes(r)


def put_list(path, es):
    raw = b"".join(enc_entry(e) for e in es)
    return {"op": "put", "path": path, "kind": "list", "c": raw.hex(), "v": es, "anc": anc(path, False)}


def put_brd(path, bs):
    raw = b"".join(finish_board(b) for b in bs)
    v = [{k: b[k] for k in ("id", "title", "bm", "cls", "cid", "attr", "gid", "lvl")} for b in bs]
    return {"op": "put", "path": path, "kind": "brd", "c": raw.hex(), "v": v, "anc": anc(path, False)}


def open_(h, hdir, form="file"):
    return {"op": "open", "h": h, "form": form, "home": "h%d" % hdir}


def renamed(calls, names):
    """the calls with the homes h0, h1, ... under other names"""
    def path(p):
        h, s, rest = p.partition("/")
        return names.get(h, h) + s + rest
    out = []
    for c in calls:
        c = dict(c)
        for k in ("path", "home", "dir"):
            if k in c:
                c[k] = path(c[k])
        if "anc" in c:
            p = path(c["anc"][-1])
            c["anc"] = anc(p)
        if c["op"] == "open" and "?" in c["home"]:
            c["form"] = "bare"
        out.append(c)
    return out


def board_dir(H, b):
    return "%s/boards/%s/%s" % (H, b[:1], b)


def user_dir(H, u):
    return "%s/home/%s/%s" % (H, u[:1], u)


class G:
    """random values"""

    def __init__(self, rng):
        self.r = rng
        self.n = 0

    def uid(self):
        self.n += 1
        return self.n

    def ascii(self, n, alpha="abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 .:[]/-_"):
        return "".join(self.r.choice(alpha) for _ in range(n))

    def big5(self, nbytes):
        out = b""
        while len(out) + 2 <= nbytes:
            if self.r.random() < 0.2:
                out += bytes([self.r.choice(b"aZ09 []:\\|")])
            else:
                out += struct.pack(">H", self.r.choice(BIG5))
        return out

    def text(self, width, big5=False):
        """a text for a field of the given width, as hex"""
        k = self.r.random()
        if k < 0.08:
            return ""
        if k < 0.22:
            return hx(self.ascii(width))                       # exactly full
        if k < 0.30:
            return hx(self.ascii(width + self.r.choice([1, 2, 5, 40, 200])))
        if k < 0.36:
            return hx(bytes(self.r.choice([1, 2, 7, 9, 27, 31, 127]) for _ in range(self.r.randint(1, width))))
        if k < 0.40:
            a = self.ascii(self.r.randint(0, width - 2))
            return hx(a + "\0" + self.ascii(4))
        if big5 and k < 0.75:
            return hx(self.big5(self.r.choice([2, 3, width - 1, width, self.r.randint(2, width)])))
        return hx(self.ascii(self.r.randint(1, width)))

    def u32(self):
        k = self.r.random()
        if k < 0.3:
            return self.r.choice([0, 1, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffe, 0x10000, 0xffff, 256, 255])
        return self.r.getrandbits(32)

    def mode(self):
        return self.r.choice([0, 0, 0, 1, 2, 4, 8, 0x10, 0x20, 0x40, 0x40, 0x80, 0x80, 0xc0, 0xff, self.r.getrandbits(8)])

    def rec(self, simple=False):
        """a new article record"""
        d = {"fn": hx("M.%d.A.%03X" % (1500000000 + self.uid(), self.r.getrandbits(12))), "own": self.text(14),
             "date": self.text(6), "title": self.text(65, True)}
        if self.r.random() < 0.2:
            d["fn"] = self.text(28)
        if simple:
            return d
        if self.r.random() < 0.4:
            d.update(self.edits(text=False))
        return d

    def edits(self, text=True):
        d = {}
        if text:
            if self.r.random() < 0.3:
                d["title"] = self.text(65, True)
            if self.r.random() < 0.2:
                d["own"] = self.text(14)
            if self.r.random() < 0.1:
                d["fn"] = self.text(28)
            if self.r.random() < 0.1:
                d["date"] = self.text(6)
        if self.r.random() < 0.4:
            d["addrec"] = self.r.choice([1, -1, 5, 100, -100, 127, -128])
        if self.r.random() < 0.3:
            d["setmod"] = str(self.u32())
        if self.r.random() < 0.15:
            d["mode"] = self.mode()
        if self.r.random() < 0.15:
            v = self.u32()
            d["anno"] = [v >> 16, v & 0xffff]
        if self.r.random() < 0.15:
            d["vl"] = [self.r.getrandbits(8) for _ in range(4)]
        return d

    def stored(self):
        """an entry as another program of the BBS has stored it"""
        def t(w, b5=False):
            h = bytes.fromhex(self.text(w, b5))[:w].split(b"\0")[0]
            return h.hex()
        m = self.mode()
        u = self.u32()
        un = struct.pack("<I", u)
        return {"fn": t(28), "own": t(14), "date": t(6), "title": t(65, True), "rec": self.r.randint(-128, 127),
                "mod": str(self.u32()), "mode": m, "mon": [u >> 16, u & 0xffff], "anno": [u >> 16, u & 0xffff],
                "vote": 1 if m & 0x40 else 0, "vl": list(un) if m & 0x40 else [0, 0, 0, 0]}

    def board_stored(self, name=None):
        def t(w):
            return bytes.fromhex(self.text(w, True))[:w].split(b"\0")[0].hex()
        a, l = self.u32(), self.u32()
        gid = self.r.choice([0, 1, 2, -1, 2147483647, -2147483648, self.r.randint(0, 9999)])
        bms = [self.ascii(self.r.randint(1, 12), "abcXYZ0129") for _ in range(self.r.randint(0, 3))]
        return {"id": hx(name) if name is not None else t(13), "title": t(49), "bm": [hx(b) for b in bms],
                "rawbm": hx("/".join(bms)), "attr": [a >> 16, a & 0xffff], "gid": str(gid), "cid": str(gid),
                "lvl": [l >> 16, l & 0xffff], "cls": 1 if a & 8 else 0}

    def board_new(self, name=None):
        d = {"id": hx(name) if name is not None else self.text(13), "title": self.text(49, True)}
        if self.r.random() < 0.5:
            v = self.u32()
            d["attr"] = [v >> 16, v & 0xffff]
        if self.r.random() < 0.4:
            d["gid"] = str(self.r.choice([1, -1, 5, 2147483647, -2147483648]))
        if self.r.random() < 0.4:
            v = self.u32()
            d["lvl"] = [v >> 16, v & 0xffff]
        return d

    def content(self, big=0.03):
        k = self.r.random()
        if k < 0.12:
            return ""
        if k < 0.12 + big:
            n = self.r.choice([4095, 4096, 4097, 8192, 20000, 40000])
            return (bytes(self.r.getrandbits(8) for _ in range(64)) * (n // 64 + 1))[:n].hex()
        if k < 0.5:
            return bytes(self.r.getrandbits(8) for _ in range(self.r.randint(1, 60))).hex()
        return hx(self.ascii(self.r.randint(1, 80)) + self.r.choice(["", "\n", "\r\n"]))

    def index(self, n):
        """a position in a list of n entries, as [text, integer for the specification]"""
        k = self.r.random()
        if n and k < 0.7:
            v = self.r.choice([0, n - 1, self.r.randrange(n)])
        else:
            v = self.r.choice([n, n + 1, n + 7, 0, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 56 - 1, 2 ** 56, 2 ** 57, 2 ** 60,
                               2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1, 2 ** 57 + 1, 2 ** 64 - 128])
        return {"at": str(v), "ix": min(v, 1000000000)}

    def sindex(self, n):
        k = self.r.random()
        if n and k < 0.6:
            v = self.r.choice([0, n - 1, self.r.randrange(n)])
        else:
            v = self.r.choice([n, n + 1, -1, -2, -n - 1, 2 ** 31, 2 ** 55, 2 ** 56, 2 ** 62, 2 ** 63 - 1, -2 ** 63, -2 ** 31])
        return {"at": str(v), "ix": max(-1, min(v, 1000000000))}
