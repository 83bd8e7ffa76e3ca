"""Campaigns on one client connection: C01 C02 C03 C05 C06 C07 C20."""
import json
from lib import Model, Raw, tset

PROTOS = ["text", "meta", "binary"]
KVOPS = {"get", "getm", "set", "add", "replace", "cas", "delete", "incr", "decr", "touch", "flush", "version",
         "xset", "xdelete", "tick"}
KVPROPS = ["CasNeverOverwritesNewer", "CasConflictIsReported", "AddOnlyWhenAbsent", "ReplaceOnlyWhenPresent",
           "HitsAreLive", "TokensUnique", "FailedLeavesItem", "NonInterference"]


def kv_model(**over):
    c = dict(Keys={"a", "b"}, Vals={"n5", "u"}, Exps={0, 2}, FlagSet={"0"}, Faults=Raw("{}"), Ops=KVOPS, MaxLen=40,
             MaxFaults=0, EmitAll=True, MaxKs=2)
    c.update(over)
    return Model(c, view="View", inv=["TypeOK"], props=KVPROPS, emit="Emit")


def walk_model(n, **over):
    m = kv_model(MaxLen=n, EmitAll=False, **over)
    m.view = None
    return m


VALUES = ["u", "u", "u", "crlf", "reply", "bin", "magic", "e", "len1", "len300", "len5000"]
FLAGS = ["0", "1", "ff", "7fffffff", "80000000", "ffffffff", "a5a5a5a5", "", "100"]


def edge(r):
    """A length at which a message ends within some bytes of the end of a buffer of 4096 bytes or a multiple of it."""
    return "len%d" % (r.choice([4096, 4096, 8192, 16384]) + r.randint(-80, 10))


def vary(ctx, steps, big=False):
    """Random concrete classes for the symbols the model leaves open."""
    r = ctx.rng
    out = []
    for s in steps:
        s = dict(s)
        if s["op"] in ("set", "add", "replace", "xset"):
            if s.get("v") == "u":
                s["v"] = r.choice(VALUES) if r.random() < 0.93 else edge(r) if r.random() < 0.85 else r.choice(["len65536", "len70000", "len32768"])
            elif s.get("v") == "n5":
                s["v"] = r.choice(["n5", "n5", "n0", "n9", "n99", "n10", "n100", "n1000", "max64", "big63", "spnum", "n007"]) \
                    if r.random() < 0.5 else "n5"
            s["f"] = r.choice(FLAGS)
        # an item that was read before is added or replaced as it is, token and all
        if s["op"] in ("add", "replace") and r.random() < 0.12:
            s["cas"] = r.choice(["obs", "obs", "old", "bogus"])
        if s["op"] in ("incr", "decr"):
            s["d"] = r.choice([1, 1, 2, 7, 100, 99999, 0]) if r.random() < 0.8 else \
                r.choice([255, 256, 65535, 65536, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 7, 10**10, 10**18])
            if r.random() < 0.3:
                s["x"] = 5
        out.append(s)
    if r.random() < 0.06 and any(s["op"] == "getm" for s in out):
        # the same lists, longer: with keys that are there and keys that are not
        ks = ["k%d" % i for i in range(r.choice([10, 20]))]
        out = vary(ctx, [{"op": "set", "k": k, "v": "u"} for k in r.sample(ks, r.choice([1, 9]))]) + out
        for s in out:
            if s["op"] == "getm" and r.random() < 0.7:
                s["ks"] = s["ks"] + r.sample(ks, len(ks))
                r.shuffle(s["ks"])
    return out


def dress(ctx, name, hists, protos=PROTOS, probe=True, **kw):
    """One scenario per history and protocol."""
    res = []
    for i, h in enumerate(hists):
        for p in protos:
            r = ctx.rng
            sc = {"id": "%s-%05d-%s" % (name, i, p), "target": "server", "proto": p, "probe": probe,
                  "steps": vary(ctx, h), "keyset": r.choice(["", "", "", ""] + KEYSETS),
                  "mode": r.choice(["", "", "", "frag", "frag1"]), "net": "tcp" if r.random() < 0.05 else "unix",
                  "enold": r.random() < 0.2}
            sc.update(kw)
            res.append(sc)
    return res


TIMING = {"hang", "late", "falseerr", "reconnect", "sock", "closed2"}


def c02(ctx):
    hs = ctx.generate("Kv transitions", "Kv", kv_model())
    walks = ctx.generate("Kv walks", "Kv", walk_model(30, Keys={"a", "b", "c"}, Exps={0, 1, 3}),
                         simulate=250 if ctx.quick else 2500, depth=32)
    hs = ctx.sample(hs, 3000) if ctx.quick else hs
    sc = dress(ctx, "kv", hs) + dress(ctx, "walk", walks)
    mine = lambda r: r not in ("mut", "recheck", "item.srv")
    ctx.campaign("kv", sc, "KvTrace", mine, timing=TIMING)
    return ["memcached is represented by an emulator whose every answer is checked against the Store specification"]


def fault_set(full):
    ats = [0, 1, 2, 3, 4, 5, 8, 12, 16, 20, 22, 23, 24, 25, 27, 28, 30, 32, 36, 40, -1, -2, -3, -4, -5, -7, -9]
    if not full:
        ats = [0, 1, 5, 12, 23, 24, 26, 28, -1, -2, -5, -7]
    f = [{"kind": k, "at": a} for k in ("stall", "cut") for a in ats]
    f.append({"kind": "cutpre", "at": 0})
    f += err_set()
    return f


def err_set():
    return [{"kind": "err", "at": 0, "kind2": k, "n": n} for k in ("oom", "toobig", "inval", "unknown", "busy", "temp", "odd", "empty") for n in (0, 1)]


CALLS = {"get", "getm", "set", "add", "replace", "delete", "incr", "decr", "touch", "flush", "version"}
FOLLOW = [
    [{"op": "get", "k": "a"}, {"op": "incr", "k": "a", "d": 2}, {"op": "set", "k": "b"}],
    [{"op": "set", "k": "a"}, {"op": "add", "k": "b"}, {"op": "get", "k": "b"}],
    [{"op": "version"}, {"op": "getm", "ks": ["a", "b"]}, {"op": "delete", "k": "a"}],
    [{"op": "getm", "ks": ["b", "a"]}, {"op": "touch", "k": "a", "x": 50}, {"op": "get", "k": "a"}],
    [{"op": "add", "k": "a"}, {"op": "replace", "k": "b"}, {"op": "decr", "k": "b", "d": 1}],
    [{"op": "reconnect"}, {"op": "get", "k": "a"}, {"op": "set", "k": "b"}],
    [{"op": "delete", "k": "b"}, {"op": "version"}, {"op": "reconnect"}, {"op": "get", "k": "b"}, {"op": "getm", "ks": ["a", "b"]}],
    [{"op": "flush"}, {"op": "reconnect"}, {"op": "add", "k": "a"}],
]


def fault_histories(ctx, faults, n):
    """Every call of every kind disturbed by every fault, in every abstract
    state, followed by more calls."""
    m = kv_model(Keys={"a", "b"}, Exps={0}, Ops=CALLS, Faults=tset(faults), MaxFaults=1, MaxLen=4, MaxKs=1)
    hs = [h for h in ctx.generate("Kv faults", "Kv", m) if "fault" in h[-1]]
    byshape = {}
    for h in hs:
        byshape.setdefault(json.dumps(h[-1], sort_keys=True), []).append(h)
    out = []
    for k in sorted(byshape):
        l = byshape[k]
        ctx.rng.shuffle(l)
        out += l[:2] if ctx.quick else l[:4]
    if n and len(out) > n:
        out = ctx.sample(out, n)
    return [h + ctx.rng.choice(FOLLOW) for h in out]


def again(ctx, faults, n):
    """A call that has just succeeded, once more and disturbed: nothing that
    is left of the first answer may pass for the second."""
    r = ctx.rng
    put = lambda k: {"op": "set", "k": k, "v": r.choice(["u", "n5", "e"])}
    both = [put("a"), put("b")]
    num = [{"op": "set", "k": k, "v": "n5"} for k in "ab"]
    calls = [(both, {"op": "get"}), (both, {"op": "getm"}), ([], {"op": "set", "v": "u"}), (both, {"op": "set", "v": "u", "cas": "obs"}),
             ([], {"op": "add", "v": "u"}), (both, {"op": "replace", "v": "u"}), (both, {"op": "delete"}), (num, {"op": "incr", "d": 1}),
             (num, {"op": "decr", "d": 1}), (both, {"op": "touch", "x": 50}), (both, {"op": "flush"}), ([], {"op": "version"}),
             # refused both times, or the second time only
             ([], {"op": "get"}), (both, {"op": "add", "v": "u"}), ([], {"op": "replace", "v": "u"}), ([], {"op": "delete"}), ([], {"op": "touch", "x": 50}),
             ([put("a")], {"op": "delete"}), ([put("a")], {"op": "replace", "v": "u"}), ([put("b")], {"op": "add", "v": "u"}), ([put("a")], {"op": "get"})]

    def on(c, k):
        c = dict(c)
        if c["op"] == "getm":
            c["ks"] = [k]
        elif c["op"] not in ("flush", "version"):
            c["k"] = k
        return c
    out = []
    for pre, c in calls:
        for f in faults:
            reads = [{"op": "get", "k": "a"}, {"op": "get", "k": "b"}] if "cas" in c else []
            st = pre + reads + [on(c, "a")] + ([on(c, "a")] if c["op"] in ("get", "set", "version", "incr") and r.random() < 0.2 else [])
            out.append(st + [{**on(c, "b"), "fault": f}] + r.choice(FOLLOW))
    return ctx.sample(out, n) if n else out


def c01(ctx):
    hs = fault_histories(ctx, fault_set(not ctx.quick), 3500 if ctx.quick else 0)
    walks = ctx.generate("Kv fault walks", "Kv",
                         walk_model(24, Ops=KVOPS | {"drop", "reconnect"}, Faults=tset(fault_set(False)), MaxFaults=5),
                         simulate=150 if ctx.quick else 2000, depth=26)
    # calls whose complete answer was received leave the link in step
    clean = ctx.generate("Kv error walks", "Kv", walk_model(24, Faults=tset(err_set()), MaxFaults=8),
                         simulate=120 if ctx.quick else 1500, depth=26)
    sc = dress(ctx, "fault", hs) + dress(ctx, "walk", walks) + dress(ctx, "errs", clean)
    sc += dress(ctx, "again", again(ctx, fault_set(not ctx.quick), 450 if ctx.quick else 0))
    mine = lambda r: r not in ("mut", "recheck", "item.srv", "item.ttl", "restore")
    ctx.campaign("faults", sc, "KvTrace", mine, timing=TIMING)
    return ["memcached is represented by an emulator that places the faults"]


def c03(ctx):
    ops = {"get", "getm", "set", "cas", "add", "replace", "delete", "incr", "touch", "flush", "xset", "xdelete", "tick"}
    hs = ctx.generate("Kv transitions (cas)", "Kv", kv_model(Ops=ops))
    # keep the transitions that involve tokens: a token was observed before
    def rel(h):
        seen = any(s["op"] in ("get", "getm") for s in h[:-1])
        return seen and (h[-1].get("cas") or h[-1]["op"] in ("set", "add", "replace", "delete", "incr"))
    hs = [h for h in hs if rel(h)]
    hs = ctx.sample(hs, 2500) if ctx.quick else hs
    # after any write, the old token must not work; after a read it must
    ext = []
    for h in hs:
        k = h[-1]["k"]
        ext.append(h + ctx.rng.choice([
            [{"op": "set", "k": k, "v": "u", "cas": "obs"}, {"op": "get", "k": k}, {"op": "set", "k": k, "v": "u", "cas": "obs"}],
            [{"op": "getm", "ks": [k]}, {"op": "set", "k": k, "v": "u", "cas": "obs"}, {"op": "set", "k": k, "v": "u", "cas": "obs"}],
            [{"op": "set", "k": k, "v": "u", "cas": "old"}, {"op": "incr", "k": k, "d": 1}, {"op": "delete", "k": k}],
            [{"op": "getm", "ks": ["b", "a"]}, {"op": "xset", "k": k, "v": "n5"}, {"op": "set", "k": k, "v": "u", "cas": "obs"}, {"op": "incr", "k": k, "d": 1}],
            [{"op": "set", "k": k, "v": "u", "cas": "bogus"}, {"op": "set", "k": k, "v": "n5"}, {"op": "incr", "k": k, "d": 1}, {"op": "add", "k": "zz"}],
        ]))
    walks = ctx.generate("Kv cas walks", "Kv", walk_model(26, Ops=ops), simulate=200 if ctx.quick else 2000, depth=28)
    mine = lambda r: r in ("wire.cas", "wire.cmd", "item.cas", "falseok", "falseerr", "falseexists", "falsemiss", "sentinel",
                           "item.val", "noexec", "dup", "panic", "hang", "num", "item.none")
    ctx.campaign("cas", dress(ctx, "cas", ext) + dress(ctx, "walk", walks), "KvTrace", mine, timing=TIMING)
    # callers with the same token, at the same time
    import conc
    ctx.campaign("contenders", conc.contenders(ctx, 200 if ctx.quick else 3000), "LinTrace", lambda x: x not in ("mut", "recheck"), timing=TIMING, par=24)
    return ["memcached is represented by an emulator whose every answer is checked against the Store specification"]


def c05(ctx):
    m = kv_model(Keys={"a", "b", "c"}, Vals={"u"}, Exps={0}, Ops={"set", "getm", "delete"}, MaxKs=3)
    hs = [h for h in ctx.generate("Kv multi-gets", "Kv", m) if h[-1]["op"] == "getm"]
    more = []
    r = ctx.rng
    for n in [0, 10, 60, 150, 60, 300] if ctx.quick else [0, 5, 20, 60, 100, 150, 300, 500, 1100] * 8:
        ks = ["k%d" % i for i in range(n)]
        pres = [k for k in ks if r.random() < r.choice([0.05, 0.5, 0.95])]
        r.shuffle(ks)
        more.append([{"op": "set", "k": k, "v": "u"} for k in pres] + [{"op": "getm", "ks": ks}, {"op": "version"}])
    hs = ctx.sample(hs, 2500) if ctx.quick else hs
    hs = [h + [{"op": "get", "k": r.choice("abc")}] for h in hs] + more
    # faults and error answers inside the list
    f = []
    for h in ctx.sample([h for h in hs if len(h[-2].get("ks", [])) > 1], 150 if ctx.quick else 1200):
        h = [dict(s) for s in h]
        h[-2]["fault"] = r.choice(err_set() + [{"kind": "err", "at": 0, "kind2": "oom", "n": 2}])
        f.append(h + [{"op": "getm", "ks": ["c", "a", "b"]}])
    mine = lambda x: x not in ("mut", "recheck", "item.srv", "item.cas", "item.ttl", "restore")
    sc = dress(ctx, "gm", hs) + dress(ctx, "gmerr", f)
    ctx.campaign("multiget", sc, "KvTrace", mine, timing=TIMING)
    # spread over servers
    pool = []
    for i, h in enumerate(ctx.sample(hs, 500 if ctx.quick else 1500) + more):
        nb = r.choice([2, 3, 5])
        pool.append({"id": "gmpool-%05d" % i, "target": r.choice(["single", "single", "replica"]), "proto": "meta",
                     "protos": [r.choice(PROTOS) for _ in range(nb)], "nb": nb, "ns": 1,
                     "steps": vary(ctx, [s for s in h if s["op"] != "version"]), "keyset": r.choice(["", "one", "odd", "case", "prefix", "format"]), "probe": True})
    # one list after another, spread over many servers
    for i in range(60 if ctx.quick else 600):
        nb = r.choice([4, 6, 8])
        ks = ["k%d" % j for j in range(24)]
        st = [{"op": "set", "k": k, "v": "u"} for k in ks] + [{"op": "getm", "ks": r.sample(ks, r.choice([8, 16, 24]))} for _ in range(50)]
        pool.append({"id": "gmmany-%05d" % i, "target": "single", "proto": "meta", "protos": [r.choice(PROTOS) for _ in range(nb)],
                     "nb": nb, "ns": 1, "steps": st})
    # one of the servers fails: its keys are not misses
    for i, h in enumerate(ctx.sample([h for h in hs if len(h[-2].get("ks", [])) > 1], 250 if ctx.quick else 2000)):
        nb = r.choice([2, 3])
        h = [dict(s) for s in h if s["op"] != "version"]
        g = max(j for j in range(len(h)) if h[j]["op"] == "getm")
        h[g]["fault"] = {**r.choice([{"kind": "err", "kind2": r.choice(["oom", "busy", "odd", "temp"])}, {"kind": "cutpre"},
                                     {"kind": "cut", "at": r.choice([0, 1, 5, -1, -2])}]), "tier": "p", "n": r.choice([0, 0, 1])}
        pool.append({"id": "gmfail-%05d" % i, "target": "single", "proto": "meta", "protos": [r.choice(PROTOS) for _ in range(nb)],
                     "nb": nb, "ns": 1, "steps": vary(ctx, h), "keyset": r.choice(["", "", "words", "prefix"])})
    ctx.campaign("multiget-pool", pool, "PoolTrace", lambda x: x.startswith("gm.") or x in
                 ("item.val", "item.flags", "item.key", "falseerr", "noexec", "falseok", "panic", "hang", "wire.cmd"), timing=TIMING)
    return ["memcached is represented by an emulator whose every answer is checked against the Store specification"]


KEYSETS = ["one", "long", "odd", "words", "meta", "case", "prefix", "num", "format", "high"]


def c06(ctx):
    exps = [{"x": 0, "xa": False}, {"x": 1, "xa": False}, {"x": 3, "xa": False}, {"x": 100, "xa": False}, {"x": -1, "xa": False},
            {"x": 2591999, "xa": False}, {"x": 2592000, "xa": False}, {"x": 3000000, "xa": True}, {"x": 100, "xa": True},
            {"x": 2592005, "xa": True}]
    vals = ["u", "e", "nil", "crlf", "reply", "bin", "magic", "len1", "len2", "len4094", "len4095", "len4096", "len4097", "len65536", "len1048576"]
    c = dict(Vals=set(vals), FlagSet={"0", "1", "ff", "7fffffff", "80000000", "ffffffff", "", "empty"}, Exps=tset(exps),
             KeySets={""} | set(KEYSETS), Reads={"get", "getm", "both"},
             StoreOps={"set", "add", "replace", "cas", "touch", "restore", "mrestore"})
    if ctx.quick:
        # a seeded part of the space: every class occurs, not every product
        r = ctx.rng
        c["Vals"] = set(r.sample(vals, 8)) | {"u", "len1048576"} | {edge(r) for _ in range(3)}
        c["FlagSet"] = set(r.sample(sorted(c["FlagSet"]), 6))
        c["Exps"] = tset(r.sample(exps, 7))
        c["Reads"] = {"get", "getm"}
    m = Model(c, emit="Emit")
    hs = ctx.generate("Fid", "Fid", m)
    # 1 MiB values are heavy: a few of them only
    heavy = [h for h in hs if "len1048576" in json.dumps(h)]
    light = [h for h in hs if "len1048576" not in json.dumps(h)]
    hs = ctx.sample(light, 4000 if ctx.quick else 15000) + ctx.sample(heavy, 40 if ctx.quick else 600)
    sc = []
    for i, h in enumerate(hs):
        for p in PROTOS:
            mode = ctx.rng.choice(["", "", "frag"])
            sc.append({"id": "fid-%05d-%s" % (i, p), "target": "server", "proto": p, "steps": h["steps"], "keyset": h["keyset"],
                       "mode": mode, "net": "tcp" if ctx.rng.random() < 0.1 else "unix", "enold": ctx.rng.random() < 0.2})
    walks = ctx.generate("Kv walks", "Kv", walk_model(30, Keys={"a", "b", "c"}, Exps={0, 1, 3}),
                         simulate=40 if ctx.quick else 1000, depth=32)
    sc += dress(ctx, "walk", walks)
    # many items in one answer
    many = []
    for i in range(40 if ctx.quick else 400):
        ks = ["k%d" % j for j in range(ctx.rng.choice([9, 12, 30]))]
        many.append([{"op": "set", "k": k, "v": "u"} for k in ks] + [{"op": "getm", "ks": ctx.rng.sample(ks, len(ks))}, {"op": "getm", "ks": ks[:5]},
                                                                  {"op": "get", "k": ks[0]}])
    sc += dress(ctx, "many", many)
    mine = lambda r: r in ("wire.val", "wire.flags", "wire.exp", "wire.cmd", "item.key", "item.val", "item.flags", "item.ttl", "item.none",
                           "restore", "mut", "recheck", "falseerr", "falseok", "falsemiss", "panic", "hang", "noexec", "badreq", "gm.lost",
                           "gm.extra", "wire.init")
    ctx.campaign("fidelity", sc, "KvTrace", mine, timing=TIMING)
    # the same through the pools
    import pools
    n = 60 if ctx.quick else 1500
    ws = ctx.generate("Pool single walks", "Pool",
                      pools.walk(pools.single(Keys={"a", "b", "c", "d"}, Ops=pools.SIN - {"close", "sclose"}, Exps={0, 2}, Vals={"n5", "u"}, Faults=set(),
                                              MaxFaults=0, MaxKs=3, Pri={"p0", "p1", "p2"}), 24), simulate=n, depth=130)
    wr = ctx.generate("Pool replica walks", "Pool",
                      pools.walk(pools.replica(Keys={"a", "b"}, Ops=pools.REP | {"decr"}, Faults=set(), MaxFaults=0, MaxKs=2, Pri={"p0"}, MaxNow=6), 22),
                      simulate=n, depth=120)
    sc = pools.scen_replica(ctx, "rep", wr)
    for i, h in enumerate(ws):
        protos = [ctx.rng.choice(PROTOS) for _ in range(3)]
        sc.append({"id": "single-%05d" % i, "target": "single", "proto": "text" if len(set(protos)) > 1 else protos[0], "protos": protos, "nb": 3,
                   "steps": pools.concrete(ctx, h), "keyset": ctx.rng.choice(["", ""] + KEYSETS), "mode": ctx.rng.choice(["", "frag"])})
    ctx.campaign("pools", sc, "PoolTrace", mine, timing=TIMING)
    return ["an item whose Flags field is not four bytes long has no flags (sent as zero)"]


def c07(ctx):
    errs = err_set()
    hs = fault_histories(ctx, errs, 0 if not ctx.quick else 2500)
    # natural errors and conflicts of every kind, and disturbed exchanges
    f2 = fault_histories(ctx, [{"kind": "cut", "at": a} for a in (0, 1, 4, 24, 26, -1, -2, -6)] + [{"kind": "cutpre", "at": 0}],
                         300 if ctx.quick else 0)
    walks = ctx.generate("Kv error walks", "Kv", walk_model(24, Faults=tset(errs), MaxFaults=10),
                         simulate=120 if ctx.quick else 2000, depth=26)
    big = [[{"op": "set", "k": "a", "v": "n5"}, {"op": o, "k": "a", "v": "len1048577"}, {"op": "get", "k": "a"}, {"op": "set", "k": "b"}]
           for o in ("set", "add", "replace")]
    hs0 = ctx.sample(ctx.generate("Kv transitions", "Kv", kv_model()), 300 if ctx.quick else 6000)
    ag = again(ctx, errs + [{"kind": k, "at": a} for k in ("cut", "stall") for a in (0, 4, 23, 24, -1)], 300 if ctx.quick else 0)
    sc = dress(ctx, "again", ag) + dress(ctx, "err", hs) + dress(ctx, "cut", f2) + dress(ctx, "walk", walks) + dress(ctx, "big", big * 2) + dress(ctx, "kv", hs0)
    mine = lambda r: r in ("falseok", "falsemiss", "falseexists", "noexec", "sentinel", "panic", "hang", "wire.cmd", "item.none", "gm.lost",
                           "gm.extra")
    ctx.campaign("errors", sc, "KvTrace", mine, timing=TIMING)
    return ["the error answers injected are the ones memcached documents, plus unknown binary status codes"]


def hostile_keys():
    k = {"empty": "", "251": "k" * 251, "300": "k" * 300, "5000": "k" * 5000, "70000": "k" * 70000, "65791": "q" * 65791,
         "space": "a b", "lead": " a", "trail": "a ", "two": "a  b",
         "lf": "a\nb", "cr": "a\rb", "crlf": "a\r\nb", "crlfget": "a\r\nget b", "flush": "a\r\nflush_all\r\n", "lfflush": "a\nflush_all",
         "del": "x\r\ndelete a\r\n", "setcmd": "z 0 0 1\r\nx\r\nset b", "onlycrlf": "\r\n", "noreply": "a noreply", "zero": "a 0",
         "opts": "a v f t c q", "tab": "a\tb", "nul": "a\x00b", "bell": "\x07", "del7f": "a\x7f", "vt": "a\x0bb", "mn": "a\r\nmn",
         "quit": "a\r\nquit", "touchy": "b 0", "S0": "b S0", "minus": "b -1", "cas": "b T0 I", "unit": "\x1f", "nbsp": "a\u00a0b",
         "250": "k" * 250,
         # legal keys that look like something else
         "percent": "%", "pd": "100%d", "ps": "%s%s%n", "pp": "%%", "pstar": "%*d", "bang": "%!v(", "quote": "\"a'`", "back": "a\\r\\nb",
         "glob": "*?[a]", "slash": "../a", "hash": "{a}#b", "upper": "A", "comma": "a,b;c", "eq": "a=b&c", "uni": "\u00e9\u4e16\u2028\u3000",
         "num": "0", "neg": "-1", "dollar": "${a}$1", "angle": "<a>", "pipe": "a|b", "END": "END", "VALUE": "VALUE", "noreply1": "noreply"}
    return k


def c20(ctx):
    keys = hostile_keys()
    ops = {"get", "getm", "set", "add", "replace", "cas", "delete", "incr", "decr", "touch"}
    hs = ctx.generate("Inj", "Inj", Model(dict(KeyClasses=set(keys), Ops=ops, Vals={"u", "inj"}), emit="Emit"))
    if ctx.quick:
        hs = ctx.sample(hs, 1300)
    # random hostile keys
    r = ctx.rng
    extra = []
    for i in range(150 if ctx.quick else 3000):
        n = r.choice([1, 2, 3, 5, 20, 249, 250, 251, 252, 1000])
        alpha = r.choice([b"ab \r\n", b"a\n", b"a ", b"\r\n\t \x00ab0", bytes(range(0, 128)), bytes(range(33, 127)), bytes(range(256)),
                          bytes(range(128, 256)), b"%sdvqx!*+#0 ", b"%ab"])
        key = bytes(r.choice(alpha) for _ in range(n))
        h = dict(r.choice(hs))
        h["kc"] = "rnd%d" % i
        keys[h["kc"]] = key
        extra.append(h)
    # every class of key in every operation that can fail at it
    sc = []
    for i, h in enumerate(hs + extra):
        for p in PROTOS:
            st = [dict(s) for s in h["steps"]]
            for s in st:
                if s.get("v") == "inj":
                    s["v"] = r.choice(["flush_all", "delete key_a", "flush_all\r\nget key_a\r\nversion", "version", "get key_a", "quit",
                                       "ms key_b 1\r\nx", "mn", "set key_b 0 0 1\r\nx"])
            k = keys[h["kc"]]
            sc.append({"id": "inj-%05d-%s-%s" % (i, p, h["kc"]), "target": "server", "proto": p, "steps": st,
                       "keyshex": {"z": (k if isinstance(k, bytes) else k.encode()).hex()},
                       "probe": True, "enold": r.random() < 0.2})
    mine = lambda x: x not in ("mut", "recheck", "item.srv", "item.ttl", "item.cas", "restore")
    ctx.campaign("keys", sc, "KvTrace", mine, timing=TIMING)
    return ["a backend rejecting an illegal key by itself is accepted as long as it executes nothing and the connection stays in step"]


CHECKS = {"C01": c01, "C02": c02, "C03": c03, "C05": c05, "C06": c06, "C07": c07, "C20": c20}
