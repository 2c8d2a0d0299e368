"""Random histories over the store: homes, boards, article lists, articles, boards, drafts."""
from gen import *

BOARDS = ["SYSOP", "sysop", "SYSO", "Test", "test2", "Gossiping", "C_Chat", "a", "A1", "ALLPOST", "TwelveLetter"]
USERS = ["SYSOP", "sysop", "SYSO", "alice", "Alice", "bob", "b", "twelveletter"]
SLOTS = ["0", "1", "2", "9", "10", "", "x"]


class World:
    def __init__(self, rng, homes=1, boards=2, users=1, handles=None):
        self.r = rng
        self.g = G(rng)
        self.calls = []
        self.homes = list(range(homes))
        self.boards = {h: rng.sample(BOARDS, boards) for h in self.homes}
        if homes > 1 and rng.random() < 0.7:
            for h in self.homes:
                self.boards[h] = self.boards[0]
        self.users = rng.sample(USERS, users)
        self.len = {}           # (home, board) -> entries
        self.nb = {}            # home -> boards in .BRD
        self.arts = {}          # (home, board) -> file names
        self.handle = {}        # handle -> home
        for h in self.homes:
            self.calls.append(mkdir("h%d" % h))
            for b in self.boards[h]:
                self.calls.append(mkdir(board_dir("h%d" % h, b)))
                self.len[h, b] = 0
                self.arts[h, b] = []
            for u in self.users:
                self.calls.append(mkdir(user_dir("h%d" % h, u)))
            self.nb[h] = 0

    def add(self, **c):
        self.calls.append(c)

    def open(self, hd, h, form=None):
        self.calls.append(open_(hd, h, form or self.r.choice(["file", "query", "bare"])))
        self.handle[hd] = h

    def pre_list(self, h, b, n):
        es = [self.g.stored() for _ in range(n)]
        self.calls.append(put_list(board_dir("h%d" % h, b) + "/.DIR", es))
        self.len[h, b] = n

    def pre_brd(self, h, names, vacant=0.0):
        bs = [self.g.board_stored("" if self.r.random() < vacant else n) for n in names]
        self.calls.append(put_brd("h%d/.BRD" % h, bs))
        self.nb[h] = len(bs)

    def pick(self):
        hd = self.r.choice(list(self.handle))
        h = self.handle[hd]
        return hd, h, self.r.choice(self.boards[h])

    # ---- operations
    def op_add(self):
        hd, h, b = self.pick()
        self.add(op="add", h=hd, b=b, rec=self.g.rec(), via=self.r.choice(["db", "db", "conn"]))
        self.len[h, b] += 1

    def op_addcopy(self):
        hd, h, b = self.pick()
        b2 = self.r.choice(self.boards[h])
        if self.len[h, b2]:
            self.add(op="addcopy", h=hd, b=b, b2=b2, i=self.r.randrange(self.len[h, b2]))
            self.len[h, b] += 1

    def op_list(self):
        hd, h, b = self.pick()
        self.add(op="list", h=hd, b=b, via="db")

    def op_upd(self):
        hd, h, b = self.pick()
        n = self.len[h, b]
        c = dict(op="upd", h=hd, b=b, **self.g.index(n))
        if n and self.r.random() < 0.7:
            c["from"] = min(c["ix"], n - 1) if self.r.random() < 0.7 else self.r.randrange(n)
            c["rec"] = self.g.edits() if self.r.random() < 0.8 else {}
        else:
            c["rec"] = self.g.rec()
        self.calls.append(c)

    def op_create(self):
        hd, h, b = self.pick()
        v = "v%d" % self.g.uid()
        via = self.r.choice(["db", "db", "map", "name"])
        c = dict(op="create", h=hd, b=b, own=self.g.text(14), date=self.g.text(6), title=self.g.text(65, True), via=via)
        if via != "name":
            c["var"] = v
        self.calls.append(c)
        if via != "name" and self.r.random() < 0.8:
            self.add(op="addvar", h=hd, b=b, var=v)
            self.len[h, b] += 1

    def fname(self, h, b):
        k = self.r.random()
        pool = self.arts[h, b]
        if pool and k < 0.8:
            return self.r.choice(pool)
        return "M.%d.A.%03X" % (1400000000 + self.r.randrange(4), self.r.randrange(3))

    def op_write(self):
        hd, h, b = self.pick()
        f = self.fname(h, b)
        if f not in self.arts[h, b]:
            self.arts[h, b].append(f)
        self.add(op="write", h=hd, b=b, f=f, c=self.g.content(), via=self.r.choice(["db", "conn"]))

    def op_append(self):
        hd, h, b = self.pick()
        self.add(op="append", h=hd, b=b, f=self.fname(h, b), c=self.g.content(), via=self.r.choice(["db", "conn"]))

    def op_read(self):
        hd, h, b = self.pick()
        self.add(op="read", h=hd, b=b, f=self.fname(h, b))

    def op_boards(self):
        hd, h, b = self.pick()
        self.add(op="boards", h=hd)

    def op_addboard(self):
        hd, h, b = self.pick()
        self.add(op="addboard", h=hd, rec=self.g.board_new(self.r.choice(BOARDS + [None, None])), via=self.r.choice(["db", "conn"]))
        self.nb[h] += 1

    def op_rmboard(self):
        hd, h, b = self.pick()
        c = self.g.sindex(self.nb[h])
        if 0 <= c["ix"] < self.nb[h]:
            self.nb[h] -= 1
        self.add(op="rmboard", h=hd, **c)

    def op_wdraft(self):
        hd, h, b = self.pick()
        self.add(op="wdraft", h=hd, u=self.r.choice(self.users), d=self.r.choice(SLOTS), c=self.g.content())

    def op_rdraft(self):
        hd, h, b = self.pick()
        self.add(op="rdraft", h=hd, u=self.r.choice(self.users + ["nobody"]), d=self.r.choice(SLOTS))

    def op_ddraft(self):
        hd, h, b = self.pick()
        self.add(op="ddraft", h=hd, u=self.r.choice(self.users), d=self.r.choice(SLOTS))

    def op_uarts(self):
        hd, h, b = self.pick()
        self.add(op="uarts", h=hd, u=self.r.choice([hx(u) for u in USERS] + [self.g.text(14)]))

    def run(self, n, weights):
        names = list(weights)
        ws = [weights[k] for k in names]
        for _ in range(n):
            getattr(self, "op_" + self.r.choices(names, ws)[0])()

    def script(self, sid, **opt):
        return {"id": sid, "kind": "seq", "calls": self.calls, "opt": opt}


# ---------------------------------------------------------------------------------------- all at once

READS = {"list", "tlist", "tread", "read", "rdraft", "boards", "users", "fav", "comments", "bcomments", "ucomments", "uarts",
         "codec", "favraw", "favtree", "logins", "loginw"}


def at_once(rng, scripts, n, reps=30, width=6):
    """some of the scripts again, each followed by its own readings, all of them at the same time"""
    out = []
    for s in rng.sample(scripts, len(scripts)):
        if len(out) >= n:
            break
        reads = []
        for c in s["calls"]:
            if c["op"] in READS and c not in reads and len(str(c)) < 30000:
                reads.append(c)
        if not reads:
            continue
        reads = rng.sample(reads, min(width, len(reads)))
        calls = [c for c in s["calls"] if c["op"] not in READS]
        opt = {k: v for k, v in s.get("opt", {}).items() if k not in ("snap", "fds")}
        out.append({"id": s["id"] + "P", "kind": "seq", "calls": calls + [dict(op="parallel", calls=reads * (4 if len(reads) == 1 else 2 if len(reads) < 4 else 1), reps=reps)], "opt": opt})
    return out
