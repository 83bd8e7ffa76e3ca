"""Concurrent callers (C04) and the design of a connection (Conn.tla)."""
from lib import Model, Raw, tset

CINV = ["TypeOK", "RightReply", "Exclusive", "OnceEach", "OneLink", "CloseFinal", "ReconnectWorks", "HealthyWorks"]


def conn(**over):
    c = dict(Threads={"t1", "t2"}, Ops={"get", "reconnect", "close"}, MaxCalls=3, MaxGen=3, MaxFaults=2, Heartbeat="none", Alone=False, Record=False, EmitAll=True, Mut="")
    c.update(over)
    return Model(c, spec="Spec", inv=CINV)


def live(m, *props):
    m = m.but()
    m.props = list(props)
    return m




def designs(ctx, heartbeat=False):
    """The life of a connection, and that its properties bite."""
    if heartbeat:
        for h in ("close", "auto"):
            ctx.check_design("Conn heartbeat=" + h, "Conn", live(conn(Threads={"t1"}, MaxCalls=2, MaxGen=3 if ctx.quick else 4, MaxFaults=1 if ctx.quick else 2,
                                                                      Heartbeat=h), "EveryCallEnds", "Heals", "Gives", "BeatsEnd"))
        ctx.mutants("Conn", "Conn", [
            ("hbforever", live(conn(Threads={"t1"}, MaxCalls=1, MaxFaults=1, Heartbeat="auto", Mut="hbforever"), "BeatsEnd")),
            ("hbquits", live(conn(Threads={"t1"}, MaxCalls=1, MaxFaults=1, Heartbeat="auto", Mut="hbquits"), "Heals"))])
        return
    ctx.check_design("Conn", "Conn", conn(MaxCalls=3 if ctx.quick else 4))
    ctx.check_design("Conn (every call ends)", "Conn", live(conn(MaxCalls=2, MaxGen=2, MaxFaults=1) if ctx.quick else conn(), "EveryCallEnds"))
    ctx.check_design("Conn, one caller", "Conn", live(conn(Threads={"t1"}, MaxCalls=4, MaxFaults=3, Alone=True), "EveryCallEnds"))
    ctx.mutants("Conn", "Conn", [(m, conn(Mut=m)) for m in ("nolock", "unlockearly", "nopoison", "reopen", "install", "closelazy")]
                + [("notimeout", live(conn(MaxCalls=1, MaxGen=2, MaxFaults=1, Mut="notimeout"), "EveryCallEnds"))])



TIMING = {"hang", "late"}
PROTOS = ["text", "meta", "binary"]
VALS = ["u", "u", "u", "n5", "len40", "len3000", "crlf", "e"]
# what a caller of a connection does; a counter holds a number
OPS = ["get", "get", "get", "getm", "set", "set", "cas", "add", "replace", "delete", "incr", "incr", "decr", "touch", "version"]


def call(r, keys, pool=False, replica=False):
    op = r.choice(OPS if not replica else [o for o in OPS if o not in ("touch", "version")])
    if not replica and r.random() < 0.06:
        op = r.choice(["flush", "flush", "reconnect"] if not pool else ["flush"])
    k = r.choice(keys)
    if op == "getm":
        return {"op": op, "ks": r.sample(keys, r.randint(1, len(keys)))}
    if op in ("incr", "decr"):
        return {"op": op, "k": "n", "d": r.choice([1, 1, 2, 10])}
    if op == "cas":
        return {"op": "set", "k": k, "v": r.choice(VALS), "cas": r.choice(["obs", "obs", "old"])}
    if op in ("set", "add", "replace"):
        return {"op": op, "k": k, "v": r.choice(VALS), "f": r.choice(["0", "ff", "a5a5a5a5"]), "x": r.choice([0, 100])}
    if op == "touch":
        return {"op": op, "k": k, "x": r.choice([50, 500])}
    if op in ("version", "flush", "reconnect"):
        return {"op": op}
    return {"op": op, "k": k}


def target(r, i):
    """A connection, mostly; sometimes a pool."""
    p = r.random()
    if p < 0.7:
        return {"target": "server", "proto": PROTOS[i % 3]}
    if p < 0.85:
        return {"target": "single", "proto": "text", "nb": 2, "protos": [r.choice(PROTOS)] * 2}
    return {"target": "replica", "proto": "meta", "nb": 2, "ns": 2}


START = [{"op": "set", "k": "n", "v": "n100"}, {"op": "set", "k": "a", "v": "u"}, {"op": "get", "k": "a"}]


def threads(r, hs):
    """A behaviour of Conn as threads of calls, begun in the order of the
    behaviour."""
    names = sorted({s["t"] for s in hs})
    return names, [names.index(s["t"]) for s in hs]


def contenders(ctx, n):
    """Callers who try to store under the same token, some of them the very same item."""
    r = ctx.rng
    sc = []
    for i in range(n):
        nt = r.choice([2, 3, 4])
        ths = []
        for t in range(nt):
            th = []
            for _ in range(r.randint(1, 3)):
                th.append({"op": "set", "k": "a", "v": r.choice(VALS), "cas": "obs"})
                if r.random() < 0.6:
                    th[-1]["sh"] = r.choice(["i", "i", "j"])
                if r.random() < 0.3:
                    th.append(r.choice([{"op": "get", "k": "a"}, {"op": "getm", "ks": ["a"]}, {"op": "set", "k": "b", "v": "u"}]))
            ths.append(th)
        t = r.choice([{"target": "server", "proto": p} for p in PROTOS] +
                     [{"target": "single", "proto": "text", "nb": 2, "protos": [r.choice(PROTOS)] * 2}] + [{"target": "replica", "proto": "meta", "nb": 2, "ns": 2}] * 3)
        sc.append({"id": "cont-%05d" % i, **t, "steps": [dict(s) for s in START], "threads": ths, "mode": r.choice(["", "frag"]),
                   "opt": {"delay": r.choice([0, 200, 1000]), "jitter": r.choice([0, 20, 200])}, "after": [{"op": "getm", "ks": ["a", "b"]}, {"op": "conns", "n": 1}]})
    return sc


def c04(ctx):
    q = ctx.quick
    r = ctx.rng
    designs(ctx)
    hs = ctx.generate("Conn threads", "Conn", conn(Threads={"t1", "t2", "t3"}, Ops={"get"}, MaxCalls=14, MaxFaults=0, MaxGen=1, Record=True, EmitAll=False),
                      simulate=400 if q else 6000, depth=120)
    sc = []
    for i, h in enumerate(hs):
        t = target(r, i)
        names, order = threads(r, h)
        ths = [[] for _ in names]
        keys = r.choice([["a"], ["a", "b"], ["a", "b", "c"]])
        for s in h:
            ths[names.index(s["t"])].append(call(r, keys, t["target"] != "server", t["target"] == "replica"))
        sc.append({"id": "ord-%05d" % i, **t, "steps": [dict(s) for s in START], "threads": ths, "order": order,
                   "mode": r.choice(["", "", "frag"]), "keyset": r.choice(["", "one", "long", "words", "prefix", "case"]),
                   "opt": {"delay": r.choice([0, 300, 2000]), "jitter": r.choice([0, 50])},
                   "after": [{"op": "getm", "ks": keys}, {"op": "get", "k": "n"}, {"op": "conns", "n": 1}]})
    for i in range(400 if q else 6000):
        t = target(r, i)
        nt = r.choice([2, 4, 4, 8])
        keys = r.choice([["a"], ["a", "b"], ["a", "b", "c", "d"]])
        one = r.random() < 0.25 and OPS[r.randrange(len(OPS))]
        ths = [[call(r, keys, t["target"] != "server", t["target"] == "replica") for _ in range(80 // nt)] for _ in range(nt)]
        sc.append({"id": "free-%05d" % i, **t, "steps": [dict(s) for s in START], "threads": ths,
                   "mode": r.choice(["", "frag"]), "keyset": r.choice(["", "one", "words"]),
                   "opt": {"delay": r.choice([0, 0, 200, 1000]), "jitter": r.choice([0, 20, 200])},
                   "after": [{"op": "getm", "ks": keys}, {"op": "get", "k": "n"}, {"op": "conns", "n": 1}]})
    sc += contenders(ctx, 100 if q else 1500)
    # callers of one pool that share no key
    for i in range(40 if q else 400):
        nb = r.choice([3, 5, 8])
        nt = r.choice([2, 4, 6])
        mk = lambda t: ["t%dk%d" % (t, j) for j in range(8)]
        ths = [[{"op": "set", "k": k, "v": "u"} for k in mk(t)] +
               [r.choice([{"op": "get", "k": r.choice(mk(t))}, {"op": "getm", "ks": r.sample(mk(t), r.randint(1, 8))},
                          {"op": "set", "k": r.choice(mk(t)), "v": "u"}]) for _ in range(20)] for t in range(nt)]
        sc.append({"id": "apart-%05d" % i, "target": "single", "proto": "text", "nb": nb, "protos": [r.choice(PROTOS) for _ in range(nb)],
                   "steps": [], "threads": ths, "opt": {"delay": 0, "jitter": 0}, "after": [{"op": "getm", "ks": mk(0)}, {"op": "conns", "n": 1}]})
    ctx.campaign("concurrent", sc, "LinTrace", lambda x: x != "mut", timing=TIMING, par=24)
    return ["memcached is represented by emulators whose every answer is checked against the Store specification",
            "the order of the commands the emulator executed is the linearization order; interleavings are sampled, not enumerated"]


FAULTS = [{"kind": "cut", "at": 0}, {"kind": "cut", "at": 3}, {"kind": "cut", "at": -1}, {"kind": "cutpre"}, {"kind": "stall", "at": 0},
          {"kind": "stall", "at": 2}, {"kind": "stall", "at": -2}, {"kind": "noread"}] + \
    [{"kind": "err", "kind2": k, "n": n} for k in ("oom", "odd", "empty", "temp") for n in (0, 1)]


def life_steps(r, h):
    """A sequential life of a connection, made concrete."""
    steps = [dict(s) for s in START] if r.random() < 0.7 else []
    closed = False
    for s in h:
        if s["op"] == "get":
            c = call(r, ["a", "b", "c"])
            if r.random() < 0.25:
                c["fault"] = dict(r.choice(FAULTS))
            steps.append(c)
            if r.random() < 0.2:
                steps += [dict(call(r, ["a", "b"]), fault={"kind": "err", "kind2": "junk"}), {"op": "reconnect"}]
            continue
        steps.append({"op": s["op"]})
        if s["op"] == "close":
            closed = True
            steps += [{"op": "conns"}] if r.random() < 0.5 else []
        elif s["op"] == "reconnect" and r.random() < 0.5:
            steps += [{"op": "conns", "n": 0 if closed else 1}] + [call(r, ["a", "b"])]
    steps += [{"op": "up"}, {"op": "reconnect"}]
    if not closed:
        steps += [call(r, ["a", "b"]) for _ in range(3)] + [{"op": "conns", "n": 1}, {"op": "close"}]
    steps += [{"op": "conns"}, {"op": "close"}] + [call(r, ["a", "b"]) for _ in range(3)] + [{"op": "flush"}, {"op": "version"}, {"op": "reconnect"}, {"op": "conns"}, {"op": "set", "k": "a"}]
    return steps


def after(r, shut):
    a = [{"op": "calm"}] + [call(r, ["a", "b"], True) for _ in range(4)] + [{"op": "conns", "n": 0 if shut else 1}]
    if not shut or r.random() < 0.7:
        a += [{"op": "close"}, {"op": "conns"}, {"op": "close"}]
    return a + [call(r, ["a", "b"], True) for _ in range(2)] + [{"op": "conns"}]


def c17(ctx):
    q = ctx.quick
    r = ctx.rng
    designs(ctx)
    sc = []
    for n, (num, calls, faults) in enumerate([(500, 6, 4), (150, 14, 8)] if q else [(6000, 6, 4), (3000, 16, 8)]):
        hs = ctx.generate("Conn lives", "Conn", conn(Threads={"t1"}, MaxCalls=calls, MaxFaults=faults, MaxGen=20, Alone=True, Record=True, EmitAll=False),
                          simulate=num, depth=150)
        for i, h in enumerate(hs):
            sc.append({"id": "life%d-%05d" % (n, i), "target": "server", "proto": PROTOS[i % 3], "steps": life_steps(r, h), "timeout": 40,
                       "mode": r.choice(["", "frag"]), "net": "tcp" if r.random() < 0.15 else "unix"})
    ctx.campaign("lives", sc, "KvTrace", lambda x: x not in ("mut", "recheck", "item.srv", "restore"), timing=TIMING)
    # callers, Reconnect, Close and a network that breaks, all at once
    sc = []
    hs = ctx.generate("Conn threads", "Conn", conn(Threads={"t1", "t2", "t3"}, MaxCalls=9, MaxFaults=3, MaxGen=20, Record=True, EmitAll=False),
                      simulate=400 if q else 5000, depth=110)
    for i, h in enumerate(hs):
        names, order = threads(r, h)
        pool = r.random() < 0.15
        ths = [[] for _ in names]
        for s in h:
            ths[names.index(s["t"])].append({"op": s["op"]} if s["t"] == "env" or s["op"] in ("close", "reconnect") and not pool else
                                            call(r, ["a", "b"], True) if s["op"] != "close" else {"op": "close"})
        if "env" in names:
            ths[names.index("env")] += [{"op": "idle", "n": 20}, {"op": "resume"}]
        shut = any(s["op"] == "close" for s in h)
        stall = any(s["op"] == "stall" for s in h)
        sc.append({"id": "conc-%05d" % i, **({"target": "single", "proto": "text", "protos": ["meta"] * 2, "nb": 2} if pool else {"target": "server", "proto": PROTOS[i % 3]}),
                   "steps": [dict(s) for s in START], "threads": ths, "order": order,
                   "mode": r.choice(["", "frag"]), "opt": {"delay": r.choice([0, 300, 2000]), "jitter": r.choice([0, 50, 500]), **({"timeout": 60} if stall else {})},
                   "after": after(r, shut)})
    # Close must not wait for a call that waits for the backend
    for i in range(12 if q else 60):
        sc.append({"id": "stuck-%05d" % i, "target": "server", "proto": PROTOS[i % 3],
                   "steps": [dict(s) for s in START] + [{"op": "stall"}],
                   "threads": [[call(r, ["a", "b"])], [{"op": "idle", "n": 10}, {"op": "close"}, call(r, ["a", "b"])], [{"op": "idle", "n": r.randint(5, 15)}, call(r, ["a"])]],
                   "opt": {"timeout": -1} if i % 2 else {}, "after": after(r, True)})
    # dialling takes long, and the connection is closed, or used, meanwhile
    for i in range(24 if q else 200):
        shut = i % 3 != 2
        t = [[{"op": "reconnect"}], [{"op": "idle", "n": r.randint(5, 40)}] + ([{"op": "close"}] if shut else []) + [{"op": "unjam"}, call(r, ["a", "b"])],
             [{"op": "idle", "n": r.randint(0, 60)}, call(r, ["a", "b"]), call(r, ["a", "b"])]]
        if i % 2:
            t.append([{"op": "idle", "n": r.randint(0, 50)}, {"op": "reconnect"}])
        sc.append({"id": "dial-%05d" % i, "target": "server", "proto": PROTOS[i % 3], "net": "tcp", "steps": [dict(s) for s in START] + [{"op": "jam"}],
                   "threads": t, "after": after(r, shut)})
    ctx.campaign("concurrent", sc, "LinTrace", lambda x: x not in ("mut", "recheck", "item.srv"), timing=TIMING, par=24)
    return ["memcached is represented by emulators whose every answer is checked against the Store specification"]


def beat_life(r, h, auto):
    """A sequential life under a heartbeat: what was disturbed is put right
    and the heartbeat is given time."""
    steps = [dict(s) for s in START[:2]]
    reach, held, broken, closed = True, False, False, False

    def settle():
        nonlocal broken, closed
        out = [{"op": "await", "n": int(broken)}]
        if broken and not auto and not closed:
            closed = True
            out += [{"op": "quiet"}] if r.random() < 0.3 else []
        broken = False
        return out + [call(r, ["a", "b"]) for _ in range(r.randint(1, 3))] + [{"op": "conns", "n": int(not closed)}]

    for s in h:
        op = s["op"]
        if op == "get":
            steps.append(call(r, ["a", "b", "c"]))
            if steps[-1]["op"] == "reconnect":
                steps[-1] = {"op": "version"}
            continue
        if op == "reconnect":
            if auto or closed:
                steps.append({"op": op})
            continue
        if op == "close":
            steps += [{"op": "close"}, {"op": "resume"}, {"op": "quiet"}]
            closed, held = True, False
            continue
        if op == "stall":
            held = broken = True
            steps += [{"op": "stall"}, {"op": "idle", "n": r.choice([250, 400]) if not auto else r.choice([20, 200, 300])}]
        elif op == "resume":
            held = False
            steps.append({"op": "resume"})
        elif op == "down":
            reach, broken = False, True
            steps += [{"op": "down"}, {"op": "idle", "n": r.choice([0, 5, 50, 120])}]
        elif op == "up":
            reach = True
            steps.append({"op": "up"})
        elif op == "drop":
            broken = True
            steps.append({"op": "drop"})
        if reach and not held and r.random() < 0.8 and not closed:
            steps += settle()
    if held:
        steps.append({"op": "resume"})
    steps.append({"op": "up"})
    if not closed:
        steps += settle() + [{"op": "idle", "n": 60}] + settle()
    return steps + [{"op": "close"}, {"op": "quiet"}, {"op": "reconnect"}, call(r, ["a"]), {"op": "quiet"}]


def c18(ctx):
    q = ctx.quick
    r = ctx.rng
    designs(ctx, True)
    sc = []
    hs = ctx.generate("Conn beats", "Conn", conn(Threads={"t1"}, MaxCalls=5, MaxFaults=4, MaxGen=20, Record=True, EmitAll=False),
                      simulate=400 if q else 4000, depth=110)
    r.shuffle(hs)
    for i, h in enumerate(hs[:240 if q else 2200]):
        auto = r.random() < 0.6
        sc.append({"id": "beat-%05d" % i, "target": "server", "proto": PROTOS[i % 3], "steps": beat_life(r, h, auto),
                   "opt": {"hb": 15, "auto": int(auto), "timeout": 120, "delay": r.choice([0, 0, 3000])}, "net": "tcp" if r.random() < 0.15 else "unix"})
    # many breaks, long absences, long health
    for i in range(12 if q else 60):
        auto = i % 4 != 3
        steps = [dict(s) for s in START[:2]] + [{"op": "idle", "n": 300}, {"op": "await"}, call(r, ["a"])]
        for _ in range(6 if auto else 1):
            b = [[{"op": "drop"}], [{"op": "down"}, {"op": "idle", "n": r.choice([150, 400])}, {"op": "up"}],
                 [{"op": "stall"}, {"op": "idle", "n": 300}, {"op": "resume"}], [{"op": "drop"}, {"op": "idle", "n": 3}, {"op": "drop"}]]
            steps += r.choice(b) + [{"op": "await", "n": 1}, call(r, ["a"]), call(r, ["a"])]
        steps += [{"op": "idle", "n": 100}, {"op": "await"}] if auto else []
        sc.append({"id": "long-%05d" % i, "target": "server", "proto": PROTOS[i % 3], "steps": steps + [{"op": "close"}, {"op": "quiet"}],
                   "opt": {"hb": 15, "auto": int(auto), "timeout": 120 if i % 2 or not auto else 0}})
        if sc[-1]["opt"]["timeout"] == 0:
            sc[-1]["opt"]["timeout"] = 120
    # away for hundreds of beats, or silent for as long
    for i in range(6 if q else 12):
        away = [{"op": "down"}, {"op": "idle", "n": 8500}, {"op": "up"}] if i < 3 or i > 8 else [{"op": "stall"}, {"op": "idle", "n": 8500}, {"op": "resume"}]
        sc.append({"id": "away-%d" % i, "target": "server", "proto": PROTOS[i % 3], "opt": {"hb": 15, "auto": 1, "timeout": 120},
                   "steps": [dict(s) for s in START[:2]] + [{"op": "await"}] + away + [{"op": "await", "n": 1}, call(r, ["a"]), call(r, ["a"]), {"op": "close"}, {"op": "quiet"}]})
    # the options as the package offers them
    for i in range(6):
        auto = i < 3
        sc.append({"id": "real-%d" % i, "target": "server", "proto": PROTOS[i % 3], "opt": {"real": 1, "auto": int(auto), "timeout": 300},
                   "steps": [dict(s) for s in START[:2]] + [{"op": "await"}, {"op": "drop"}, {"op": "await", "n": 1}, call(r, ["a"]), {"op": "close"}, {"op": "quiet"}]})
    # no heartbeat asked for, none given
    for i in range(3):
        sc.append({"id": "none-%d" % i, "target": "server", "proto": PROTOS[i % 3], "opt": {},
                   "steps": [dict(s) for s in START[:2]] + [{"op": "idle", "n": 60}, {"op": "conns", "n": 1}, call(r, ["a"]), {"op": "close"}, {"op": "quiet"}]})
    # callers meanwhile, and a Close at any moment
    hs = ctx.generate("Conn beats, callers", "Conn", conn(Threads={"t1", "t2"}, MaxCalls=8, MaxFaults=3, MaxGen=20, Record=True, EmitAll=False),
                      simulate=200 if q else 3000, depth=110)
    for i, h in enumerate(hs[:120 if q else 1300]):
        names, order = threads(r, h)
        ths = [[] for _ in names]
        shut = any(s["op"] == "close" for s in h)
        for s in h:
            ths[names.index(s["t"])] += [{"op": "idle", "n": r.choice([0, 0, 1, 5, 12, 15, 20, 140])}] if s["t"] == "env" or s["op"] == "close" else []
            ths[names.index(s["t"])].append({"op": s["op"]} if s["t"] == "env" or s["op"] in ("close", "reconnect") else call(r, ["a", "b"]))
        if "env" in names:
            ths[names.index("env")] += [{"op": "idle", "n": 20}, {"op": "resume"}, {"op": "up"}]
        sc.append({"id": "conc-%05d" % i, "target": "server", "proto": PROTOS[i % 3], "steps": [dict(s) for s in START], "threads": ths,
                   "opt": {"hb": r.choice([5, 15]), "auto": 1, "timeout": 120, "delay": r.choice([0, 2000]), "jitter": r.choice([50, 5000])},
                   "after": [{"op": "up"}] + ([] if shut else [{"op": "await", "n": 1}, call(r, ["a"]), {"op": "conns", "n": 1}, {"op": "close"}])
                   + [{"op": "quiet"}, {"op": "reconnect"}, call(r, ["a"]), {"op": "conns"}]})
    # callers who never pause
    for i in range(9 if q else 90):
        env = [{"op": "idle", "n": 50}]
        for _ in range(r.choice([1, 2, 4])):
            env += r.choice([[{"op": "drop"}], [{"op": "down"}, {"op": "idle", "n": r.choice([5, 50, 150])}, {"op": "up"}],
                             [{"op": "stall"}, {"op": "idle", "n": 200}, {"op": "resume"}]]) + [{"op": "heal"}]
        sc.append({"id": "busy-%d" % i, "target": "server", "proto": PROTOS[i % 3], "opt": {"hb": 150, "auto": 1, "timeout": 120},
                   "steps": [dict(s) for s in START], "threads": [[{"op": "spin", "k": "a"}]] * r.choice([1, 2]) + [env],
                   "after": [{"op": "await"}, call(r, ["a"]), {"op": "conns", "n": 1}, {"op": "close"}, {"op": "quiet"}]})
    # dialling takes long: Close must not leave the connection that comes late
    for i in range(6 if q else 60):
        shut = i % 3 < 2
        sc.append({"id": "dial-%d" % i, "target": "server", "proto": PROTOS[i % 3], "net": "tcp", "opt": {"hb": 15, "auto": 1, "timeout": 300},
                   "steps": [dict(s) for s in START[:2]] + [{"op": "await"}, {"op": "jam"}, {"op": "drop"}, {"op": "idle", "n": r.choice([60, 150])}]
                   + ([{"op": "close"}, {"op": "unjam"}, {"op": "idle", "n": 1400}] if shut else [{"op": "unjam"}, {"op": "await", "n": 1}, call(r, ["a"]), {"op": "close"}]) + [{"op": "quiet"}]})
    ctx.campaign("heartbeat", sc, "LinTrace", lambda x: x not in ("mut", "recheck", "item.srv"), par=16,
                 timing=TIMING | {"hb.noheal", "hb.none", "hb.noclose", "hb.dropped", "afterlife", "sock", "falseerr", "reconnect"})
    return ["memcached is represented by emulators whose every answer is checked against the Store specification",
            "soon means: within five seconds at a heartbeat of 15 ms"]


T = 200       # the Timeout, ms
ALLOPS = ["get", "getm", "set", "cas", "add", "replace", "delete", "incr", "decr", "touch", "flush", "version"]


def mk(r, op, keys=("a", "b")):
    """A call of a kind."""
    if op == "cas":
        return {"op": "set", "k": "a", "v": "u", "cas": "obs"}
    if op == "getm":
        return {"op": op, "ks": list(r.choice([["a"], ["a", "b"], ["b", "c", "a"]]))}
    if op in ("set", "add", "replace"):
        return {"op": op, "k": r.choice(keys) if op != "add" else "z", "v": "u"}
    if op in ("incr", "decr"):
        return {"op": op, "k": "n", "d": 1}
    if op == "touch":
        return {"op": op, "k": "a", "x": 100}
    return {"op": op} if op in ("flush", "version") else {"op": op, "k": "a"}


# every part of an answer comes in time after the one before
DRIP = {"kind": "drip", "n2": int(T * .95)}


def c19(ctx):
    q = ctx.quick
    r = ctx.rng
    ctx.check_design("Conn (every call ends)", "Conn", live(conn(MaxCalls=2, MaxGen=2, MaxFaults=1) if q else conn(), "EveryCallEnds"))
    ctx.mutants("Conn", "Conn", [("notimeout", live(conn(MaxCalls=1, MaxGen=2, MaxFaults=1, Mut="notimeout"), "EveryCallEnds"))])
    import kv
    ats = [0, 1, 2, 5, 8, 12, 16, 20, 23, 24, 25, 28, 32, 36, 40, -1, -2, -3, -5, -7, -9]
    faults = [{"kind": "stall", "at": a} for a in (ats if not q else [0, 1, 5, 12, 23, 24, 26, 28, -1, -2, -5])] + [{"kind": "noread"}, {"kind": "trickle", "n2": 4 * T}, DRIP]
    sc = []

    def add(kind, p, steps, **kw):
        o = {"timeout": T, "late": int(T * 1.8)}
        o.update(kw.pop("opt", {}))
        sc.append({"id": "%s-%05d" % (kind, len(sc)), "target": "server", "proto": p, "steps": steps, "timeout": T, "opt": o,
                   "net": "tcp" if r.random() < 0.1 else "unix", **kw})

    # every call disturbed in every way, in every abstract state
    for h in kv.fault_histories(ctx, faults, 450 if q else 0):
        for p in PROTOS:
            add("stall", p, h, mode="" if r.random() < 0.7 else "frag")
    for p in PROTOS:
        for op in ALLOPS:
            for rep in range(1 if q else 6):
                start = [dict(s) for s in START] + [{"op": "set", "k": "b", "v": r.choice(["u", "len3000"])}]
                for f in r.sample(faults, 3) + [{"kind": "noread"}, {"kind": "trickle", "n2": 4 * T}, DRIP, {"kind": "stall", "at": 0}]:
                    # as the first call of the connection, and after others
                    add("first", p, [dict(mk(r, op), fault=f), mk(r, "get"), {"op": "reconnect"}, mk(r, op), mk(r, "get")])
                    add("later", p, start + [mk(r, r.choice(ALLOPS)) for _ in range(r.randint(0, 3))] + [dict(mk(r, op), fault=f), {"op": "reconnect"}, mk(r, "get")])
                    add("again", p, start + [mk(r, "get"), {"op": "reconnect"}, dict(mk(r, op), fault=f), mk(r, "version")])
                if op == "getm":
                    for i in range(3):
                        ks = ["a", "b", "c", "d", "e", "f"]
                        r.shuffle(ks)
                        add("drip", p, [{"op": "set", "k": k, "v": r.choice(["u", "e", "len3000"])} for k in ks[:r.randint(2, 6)]]
                            + [{"op": "getm", "ks": ks, "fault": DRIP}, {"op": "reconnect"}, mk(r, "get")])
                # an answer in time, after a while of nothing, again and again
                add("idle", p, start + [mk(r, r.choice(ALLOPS)), {"op": "idle", "n": int(T * r.choice([1.1, 1.5]))}, mk(r, op), mk(r, op)])
                add("slow", p, start + [dict(mk(r, op), fault={"kind": "slow", "at": r.choice([0, 1, 24, -2]), "n2": int(T * .55)}) for _ in range(3)], opt={"late": 3000})
                mix = start[:]
                for _ in range(10):
                    mix.append(mk(r, r.choice(ALLOPS + [op] * 4)))
                    if r.random() < 0.5:
                        mix[-1] = dict(mix[-1], fault={"kind": "slow", "at": r.choice([0, 1, 24, -2]), "n2": int(T * .4)})
                    elif r.random() < 0.5:
                        mix.append({"op": "idle", "n": r.choice([5, 50, int(T * 1.2)])})
                add("use", p, mix, opt={"late": 3000})
        # requests too big for what the system buffers
        for op in ("set", "add", "replace", "cas", "getm", "getm"):
            for i in range(1 if q else 5):
                c = mk(r, op)
                big = "len900000"
                if op == "getm":
                    c["ks"] = ["k%04d" % j for j in range(2500)]
                else:
                    c["v"] = big
                pre = [{"op": "set", "k": "a", "v": "u"}, {"op": "get", "k": "a"}]
                for st in (pre, [], pre + [{"op": "idle", "n": int(T * 1.2)}]):
                    if op == "cas" and not st:
                        continue
                    add("big", p, st + [dict(c, fault={"kind": "noread"}), mk(r, "get"), {"op": "reconnect"}, mk(r, "get")], keyset="long" if op == "getm" else "", net="unix")
                if op != "getm":
                    add("bigok", p, pre + [c, {"op": "idle", "n": int(T * 1.2)}, c, {"op": "get", "k": c["k"]}], opt={"late": 3000, "timeout": 5 * T})
    ctx.campaign("timeouts", sc, "KvTrace", lambda x: x not in ("mut", "recheck", "item.srv", "restore", "item.ttl"), par=24,
                 timing=TIMING | {"falseerr", "reconnect", "noexec"})
    # callers behind one another
    sc = []
    for i in range(45 if q else 300):
        nt = r.choice([2, 3, 6])
        ths = [[{"op": "idle", "n": r.randint(0, 30)}] + [mk(r, r.choice(ALLOPS)) for _ in range(r.randint(1, 3))] for _ in range(nt)]
        sc.append({"id": "queue-%05d" % i, "target": "server", "proto": PROTOS[i % 3], "steps": [dict(s) for s in START],
                   "threads": [[{"op": "idle", "n": r.randint(0, 20)}, {"op": "stall"}, {"op": "idle", "n": T * 2}, {"op": "resume"}]] + ths,
                   "opt": {"timeout": T, "late": int(T * 1.8), "delay": r.choice([0, 20000])}, "after": [{"op": "calm"}, mk(r, "get"), mk(r, "version")]})
    for i in range(72 if q else 500):
        # all answers in time, together they take longer
        op = ALLOPS[i // 3 % len(ALLOPS)]
        sc.append({"id": "patient-%05d" % i, "target": "server", "proto": PROTOS[i % 3], "steps": [dict(s) for s in START],
                   "threads": [[mk(r, r.choice(ALLOPS + [op] * len(ALLOPS)) if j else op) for j in range(r.choice([1, 2]))] for _ in range(4)],
                   "opt": {"timeout": T, "exact": 550 * T}, "after": [mk(r, "get"), mk(r, "version")]})
    ctx.campaign("callers", sc, "LinTrace", lambda x: x not in ("mut", "recheck", "item.srv"), par=16, timing=TIMING | {"falseerr", "noexec", "reconnect"})
    return ["memcached is represented by emulators whose every answer is checked against the Store specification",
            "about one Timeout means less than 1.8 times a Timeout of %d ms, and an answer in time comes within 0.6 of it" % T]


CHECKS = {"C04": c04, "C17": c17, "C18": c18, "C19": c19}

if __name__ == "__main__":
    import lib
    ctx = lib.Ctx("X00")
    try:
        designs(ctx)
        designs(ctx, True)
    finally:
        ctx.close()
