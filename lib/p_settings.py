"""C26: settings of users.  The functions are not exported, so the recorder is compiled into the package by an overlay."""
import json, os, shutil, subprocess
from common import VERIF, REPO, CheckError, env
from p_files import Rec
from p_front import values
import common

BITS = list(range(32))


def recorder(ctx):
    os.environ["PATH"] = common.GOENV["PATH"] + ":" + os.environ.get("PATH", "")
    ov = os.path.join(ctx.scratch, "settings-ov.json")
    json.dump({"Replace": {os.path.join(REPO, "pttbbs/zz_settings_verif_test.go"): os.path.join(VERIF, "harness/inpkg/settings_verif_test.go")}}, open(ov, "w"))
    mod = os.path.join(ctx.scratch, "gomod-settings")
    os.makedirs(mod, exist_ok=True)
    for f in ("go.mod", "go.sum"):
        shutil.copy(os.path.join(REPO, f), mod)
    out = os.path.join(ctx.scratch, "settings.test")
    p = subprocess.run(["go", "test", "-c", "-modfile", os.path.join(mod, "go.mod"), "-overlay", ov, "-o", out, "./pttbbs"], cwd=REPO, env=env(),
                       capture_output=True, text=True)
    if p.returncode != 0:
        raise CheckError("cannot build the recorder into /repo's pttbbs:\n" + p.stdout + p.stderr)
    return out


def record(ctx, exe, scripts):
    d = os.path.join(ctx.scratch, "settings")
    os.makedirs(d, exist_ok=True)
    inp, outp = os.path.join(d, "in"), os.path.join(d, "out")
    with open(inp, "w") as f:
        for s in scripts:
            f.write(json.dumps(s) + "\n")
    p = subprocess.run([exe, "-test.run", "^TestVerifSettings$", "-test.timeout", "300s"], cwd=d, env=env(VERIF_IN=inp, VERIF_OUT=outp),
                       capture_output=True, text=True)
    hist = [json.loads(l) for l in open(outp)] if os.path.exists(outp) else []
    if p.returncode != 0:
        msg = p.stdout + p.stderr
        if len(hist) < len(scripts) and ("panic:" in msg or "fatal error:" in msg) and "go-bbs" in msg:
            hist.append({"id": scripts[len(hist)]["id"], "ev": [{"op": "ask", "id": "", "r": "died", "on": [], "asked": [], "msg": msg[:1500]}]})
        else:
            raise CheckError("the recorder failed:\n" + msg[:3000])
    return hist


def account(g, uid, flag):
    b = bytearray(g.raw())
    b[4:17] = uid + bytes(13 - len(uid))
    o = [x for x in g.fs if x[0] == "userflag"][0][1]
    b[o:o + 4] = flag.to_bytes(4, "little")
    return bytes(b)


def c26(ctx):
    r = ctx.rng
    g = Rec(r, "user")
    o = values(ctx, "SettingsModel", "SettingsModel_%s.cfg" % ctx.pick("q", "t"))
    num = lambda p: p[0] * 65536 + p[1]
    hx = lambda b: b.hex()
    scripts = []

    def script(calls):
        scripts.append({"id": "s%d" % len(scripts), "calls": calls})
    # every pair of flags of the model, as two accounts among others
    calls = []
    seen = sorted({(num(x["a"]), num(x["b"])) for x in o})
    if not ctx.quick:
        r.shuffle(seen)
        seen = seen[:12000]
    for k, (a, b) in enumerate(seen):
        c = account(g, b"al", a) + account(g, b"bob", b)
        if r.random() < 0.2:
            c = account(g, b"z", r.getrandbits(32)) + c
        calls += [dict(op="load", c=hx(c)), dict(op="ask", id=hx(b"al")), dict(op="ask", id=hx(b"bob"))]
        if r.random() < 0.1:
            calls.append(dict(op="ask", id=hx(r.choice([b"a", b"", b"al ", b"AL", b"bo", b"bobb", b"al\0"]))))
        if len(calls) > 60:
            script(calls)
            calls = []
    if calls:
        script(calls)
    # random lists
    for k in range(ctx.pick(80, 1500)):
        calls = []
        for _ in range(r.choice([1, 2, 3])):
            n = r.choice([0, 1, 2, 3, 5, 9])
            ids = []
            while len(ids) < n:
                i = r.choice([g.g.ascii(r.choice([1, 2, 11, 12])).encode(), (ids[-1] + b"x")[:12] if ids else b"SYSOP",
                              ids[-1].swapcase() if ids else b"guest", ids[-1][:-1] if ids and len(ids[-1]) > 1 else b"pichu"])
                i = bytes(c for c in i if 32 < c < 127)
                if i and i not in ids:
                    ids.append(i)
            flags = [r.choice([0, 0xffffffff, 0x030f3ec3, 0xfcf0c13c, r.getrandbits(32), r.getrandbits(32), 1 << r.randrange(32), 0xffffffff ^ (1 << r.randrange(32))]) for _ in ids]
            c = b"".join(account(g, i, f) for i, f in zip(ids, flags)) + bytes(r.choice([0, 0, 0, 1, 511]))
            calls.append(dict(op="load", c=hx(c)))
            ask = ids + [r.choice([b"", b"nobody", b"al\xff", (ids or [b"x"])[0] + b" "])]
            r.shuffle(ask)
            if r.random() < 0.3:
                calls.append(dict(op="par", ids=[hx(r.choice(ask)) for _ in range(8)]))
            calls += [dict(op="ask", id=hx(i)) for i in ask]
        script(calls)
    hist = record(ctx, recorder(ctx), scripts)
    ctx.check("SettingsTrace", hist, "settings told of the accounts of a file", scripts=scripts)
    return ctx.finish()


CHECKS = {"C26": c26}
