"""Transition tours: every transition of a bounded model, as histories for the implementation."""
import collections, json, re, subprocess


def unescape(line):
    return json.loads(line) if line.startswith('"') else line


def canon(text):
    v = json.loads(text)
    return json.dumps({k: x or 0 for k, x in v.items()}, sort_keys=True)


def graph(output):
    """the transitions which the model printed: (setup calls, initial state, {state: [(call, next)]})"""
    setup, trs = None, []
    ids = {}
    for line in output.splitlines():
        if line.startswith('"SETUP@@@'):
            setup = json.loads(unescape(line)[8:])
        elif line.startswith('"TR@@@'):
            _, a, c, b = unescape(line).split("@@@")
            a, b = canon(a), canon(b)
            trs.append((ids.setdefault(a, len(ids)), c, ids.setdefault(b, len(ids))))
    g = collections.defaultdict(dict)
    for a, c, b in trs:
        g[a].setdefault(c, set()).add(b)
    return setup, g, len(ids)


def walks(setup, g, n, root, rng, maxlen=60):
    """histories that together make every call in every state (nondeterministic calls: once)"""
    todo = {a: list(cs) for a, cs in g.items()}
    for v in todo.values():
        rng.shuffle(v)
    left = sum(len(v) for v in todo.values())
    out = []
    while left:
        cur, walk = root, []
        while len(walk) < maxlen:
            if todo.get(cur):
                c = todo[cur].pop()
                left -= 1
                walk.append(c)
                nx = g[cur][c]
                cur = next(iter(nx)) if len(nx) == 1 else min(nx)
                continue
            # nearest state with calls left
            seen = {cur: None}
            q = collections.deque([cur])
            goal = None
            while q:
                x = q.popleft()
                if x != cur and todo.get(x):
                    goal = x
                    break
                for c, nx in g.get(x, {}).items():
                    for y in nx:
                        if y not in seen:
                            seen[y] = (x, c)
                            q.append(y)
            if goal is None:
                break
            path = []
            y = goal
            while seen[y] is not None:
                x, c = seen[y]
                path.append(c)
                y = x
            path.reverse()
            if walk and len(walk) + len(path) >= maxlen:
                break
            walk += path
            cur = goal
        if not walk:
            # states that cannot be reached from here by the calls left: cannot happen in a connected graph
            raise ValueError("tour stuck with %d transitions left" % left)
        out.append([json.loads(c) for c in walk])
    return out


READERS = {"add": lambda c: [dict(op="list", h=c["h"], b=c["b"], via="db")],
           "addcopy": lambda c: [dict(op="list", h=c["h"], b=c["b"], via="db")],
           "upd": lambda c: [dict(op="list", h=c["h"], b=c["b"], via="db")],
           "write": lambda c: [dict(op="read", h=c["h"], b=c["b"], f=c["f"])],
           "append": lambda c: [dict(op="read", h=c["h"], b=c["b"], f=c["f"])],
           "wdraft": lambda c: [dict(op="rdraft", h=c["h"], u=c["u"], d=c["d"])],
           "ddraft": lambda c: [dict(op="rdraft", h=c["h"], u=c["u"], d=c["d"])],
           "addboard": lambda c: [dict(op="boards", h=c["h"])],
           "rmboard": lambda c: [dict(op="boards", h=c["h"])]}


def scripts(ctx, group, tier=None, prefix="t", maxlen=60, snap=1):
    cfg = "BBSModel_%s_%s.cfg" % (group, tier or ("q" if ctx.quick else "t"))
    o = ctx.model("BBSModel", cfg, envs=dict(TOUR="1"))
    setup, g, n = graph(o)
    ntr = sum(len(v) for v in g.values())
    ws = walks(setup, g, n, 0, ctx.rng, maxlen)
    out = []
    for k, w in enumerate(ws):
        calls = []
        for c in w:
            calls.append(c)
            for rd in READERS.get(c["op"], lambda c: [])(c):
                calls.append(rd)
        out.append({"id": "%s-%s-%d" % (prefix, group, k), "kind": "seq", "calls": setup + calls, "opt": {"snap": snap}})
    ctx.extra.setdefault("tours", []).append({"model": cfg, "model_states": n, "model_transitions_performed": ntr,
                                              "walks": len(ws), "calls": sum(len(s["calls"]) for s in out)})
    ctx.log("tour", cfg, "states", n, "transitions", ntr, "walks", len(ws), "calls", sum(len(s["calls"]) for s in out))
    return out
