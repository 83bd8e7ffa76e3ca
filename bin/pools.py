"""Campaigns on pools of servers: C10 (SinglePool), C11 and C12 (ReplicaPool)."""
from lib import Model, Raw, tset
from kv import KEYSETS, PROTOS, TIMING, edge, vary

INV = ["TypeOK", "KeyedAtOwner", "OnceEach", "ReadsFromPrimary", "PrimaryFirst", "FailureReported", "SuccessIsWhole",
       "EqualAfterSuccess", "NoFalseError", "RefusalsOnly"]
KINDS = ("err", "cutpre", "cut")
ERRS = ["oom", "toobig", "inval", "unknown", "busy", "temp", "odd", "empty"]
REP = {"get", "set", "add", "replace", "cas", "delete", "incr", "getm", "xset", "xdelete", "tick", "drop", "sreconnect"}
SIN = {"get", "set", "add", "replace", "cas", "delete", "incr", "decr", "touch", "getm", "flush", "version", "close", "drop", "sclose",
       "sreconnect"}


def faults(tiers, ns=(0, 1)):
    return tset([{"kind": k, "tier": t, "n": n} for k in KINDS for t in tiers for n in ns if not (t == "s" and n == 1)])


def replica(**over):
    c = dict(Kind="replica", Pri={"p0", "p1"}, Sec={"s0"}, Keys={"a"}, Vals={"n5", "u"}, Exps={0, 2}, Ops=REP, Faults=faults("ps"),
             MaxNow=2, MaxFaults=1, MaxLen=6, MaxKs=1, EmitAll=True, Mut="")
    c.update(over)
    return Model(c, view="View", inv=INV, emit="Emit")


def single(**over):
    c = dict(Kind="single", Pri={"p0", "p1"}, Sec=set(), Keys={"a", "b"}, Vals={"u"}, Exps={0}, Ops=SIN - {"replace", "decr", "cas"}, Faults=faults("p", (0,)),
             MaxNow=1, MaxFaults=1, MaxLen=3, MaxKs=2, EmitAll=True, Mut="")
    c.update(over)
    return Model(c, view="View", inv=INV, emit="Emit")


def walk(m, n):
    m = m.but(EmitAll=False, MaxLen=n)
    m.view = m.emit = None
    return m


EXPS = [0, 1, 2, 100, 86400, 2591999, 2592000, -1]


def concrete(ctx, h, expire=True):
    """Concrete fault kinds and expirations for the symbols of the model."""
    r = ctx.rng
    out = []
    for s in vary(ctx, h):
        s = dict(s)
        if "fault" in s:
            s["fault"] = dict(s["fault"])
            if s["fault"]["kind"] == "err":
                s["fault"]["kind2"] = r.choice(ERRS)
            elif s["fault"]["kind"] == "cut":
                s["fault"]["at"] = r.choice([0, 0, 1, 2, 5, -1, -2])
        if s["op"] in ("incr", "decr"):
            s.pop("x", None)   # the counter's own lifetime: only binary knows it, and pools of meta servers do not
        if expire and s["op"] in ("set", "add", "replace") and s.get("x") and r.random() < 0.4:
            if r.random() < 0.5:
                s["x"] = r.choice(EXPS)
            else:
                s["x"], s["xa"] = r.choice([(100, True), (3000000, True), (2592005, True)])
        out.append(s)
    return out


def scen_replica(ctx, name, hs, nb=None, ns=None):
    r = ctx.rng
    res = []
    for i, h in enumerate(hs):
        res.append({"id": "%s-%05d" % (name, i), "target": "replica", "proto": "meta", "nb": nb or r.choice([1, 1, 2, 3]), "ns": ns or r.choice([1, 1, 2, 3]),
                    "steps": concrete(ctx, h), "keyset": r.choice(["", "", ""] + KEYSETS),
                    "mode": r.choice(["", "", "frag"]), "net": "tcp" if r.random() < 0.05 else "unix"})
    return res


REPTAIL = [
    [{"op": "get", "k": "a"}, {"op": "getm", "ks": ["a", "b"]}],
    [{"op": "incr", "k": "a", "d": 3}, {"op": "get", "k": "a"}],
    [{"op": "sreconnect", "b": "p*"}, {"op": "sreconnect", "b": "s*"}, {"op": "set", "k": "a", "v": "n5", "x": 100}, {"op": "incr", "k": "a", "d": 2},
     {"op": "tick", "n": 3}, {"op": "decr", "k": "a", "d": 1}, {"op": "delete", "k": "a"}],
    [{"op": "sreconnect", "b": "p*"}, {"op": "sreconnect", "b": "s*"}, {"op": "get", "k": "a"}, {"op": "set", "k": "a", "v": "u", "cas": "obs"},
     {"op": "add", "k": "a"}, {"op": "replace", "k": "a"}],
    [{"op": "xdelete", "k": "a", "b": "s*"}, {"op": "replace", "k": "a", "x": 50}, {"op": "xdelete", "k": "a", "b": "s*"}, {"op": "incr", "k": "a", "d": 1}],
    [{"op": "xset", "k": "a", "v": "n5", "b": "s*"}, {"op": "delete", "k": "a"}, {"op": "xset", "k": "a", "v": "n9", "b": "s*"}, {"op": "add", "k": "a", "v": "n7"},
     {"op": "incr", "k": "a", "d": 5}],
]

# counters with every form of lifetime, flags and value, read back and copied
def counters(ctx, n):
    r = ctx.rng
    hs = []
    for i in range(n):
        st = [{"op": r.choice(["set", "xset"]), "b": "p*", "k": "a", "v": r.choice(["n5", "n99", "n0", "n1000", "spnum", "big63", "u"]),
               "f": r.choice(["", "1", "ff", "ffffffff"]), **r.choice([{"x": 0}, {"x": 2}, {"x": 100}, {"x": 86400}, {"x": 2591999}, {"x": 2592000},
                                                                       {"x": 2592005, "xa": True}, {"x": 5000000, "xa": True}])}]
        if r.random() < 0.5:
            st.append({"op": r.choice(["xset", "xdelete"]), "b": "s*", "k": "a", "v": r.choice(["n5", "u"]), "x": r.choice([0, 50])})
        for _ in range(r.randint(1, 3)):
            if r.random() < 0.4:
                st.append({"op": "tick", "n": r.choice([1, 3, 60])})
            st.append({"op": r.choice(["incr", "decr"]), "k": "a", "d": r.choice([0, 1, 2, 7, 95, 100000])})
        hs.append(st)
    return hs


def replica_scenarios(ctx):
    q = ctx.quick
    hs = ctx.generate("Pool replica", "Pool", replica(Pri={"p0"}, MaxLen=5) if q else replica(Ops=REP | {"decr"}, MaxLen=7))
    # one scenario per disturbed transition and abstract state
    hs = ctx.sample(hs, 5000) if q else ctx.sample(hs, 20000)
    hs = [h + ctx.rng.choice(REPTAIL) for h in hs]
    walks = ctx.generate("Pool replica walks", "Pool",
                         walk(replica(Keys={"a", "b", "c"}, Ops=REP | {"decr"}, MaxFaults=4, MaxKs=3, Pri={"p0"}, Sec={"s0"}, MaxNow=6), 22),
                         simulate=150 if q else 3000, depth=120)
    return hs, walks


def c11(ctx):
    ctx.mutants("Pool (replica)", "Pool", [(m, replica(Mut=m, MaxLen=5, EmitAll=True).quiet()) for m in ("secttl", "seccas", "secadd", "seconfail")])
    hs, walks = replica_scenarios(ctx)
    sc = scen_replica(ctx, "rep", hs) + scen_replica(ctx, "walk", walks) + scen_replica(ctx, "ctr", counters(ctx, 400 if ctx.quick else 6000))
    mine = lambda r: r in ("sec.diff", "sec.hidden", "sec.refused", "falseerr", "panic", "hang", "num", "wire.val", "wire.flags", "wire.exp", "wire.cas", "dup",
                           "mut", "noexec")
    ctx.campaign("replica", sc, "PoolTrace", mine, timing=TIMING)
    return ["memcached is represented by emulators whose every answer is checked against the Store specification"]


def c12(ctx):
    ctx.mutants("Pool (replica)", "Pool", [(m, replica(Mut=m, MaxLen=5).quiet()) for m in ("secfirst", "seconfail", "sechide", "route")])
    hs, walks = replica_scenarios(ctx)
    sc = scen_replica(ctx, "rep", hs) + scen_replica(ctx, "walk", walks)
    mine = lambda r: r in ("sec.early", "sec.sent", "sec.hidden", "sec.refused", "sec.read", "falseok", "falseerr", "falsemiss", "falseexists", "sentinel",
                           "panic", "hang", "noexec", "dup", "item.val", "item.key", "gm.lost", "gm.extra", "wire.cmd", "route")
    ctx.campaign("replica", sc, "PoolTrace", mine, timing=TIMING)
    return ["memcached is represented by emulators whose every answer is checked against the Store specification"]


def c10(ctx):
    q = ctx.quick
    r = ctx.rng
    ctx.mutants("Pool (single)", "Pool", [(m, single(Mut=m, Keys={"a"}, MaxKs=1).quiet()) for m in ("route", "flushone")])
    hs = ctx.generate("Pool single", "Pool", single() if q else single(Ops=SIN, MaxLen=4))
    hs = ctx.sample(hs, 4500 if q else 15000)
    walks = ctx.generate("Pool single walks", "Pool",
                         walk(single(Keys={"a", "b", "c", "d", "e"}, Ops=SIN - {"close", "sclose"}, Exps={0, 2}, Vals={"n5", "u"}, MaxFaults=3,
                                     MaxKs=3, Pri={"p0", "p1", "p2"}), 24),
                         simulate=150 if q else 3000, depth=130)
    sc = []
    for i, h in enumerate(hs + walks):
        nb = r.choice([2, 3]) if i < len(hs) else 3
        protos = [r.choice(PROTOS) for _ in range(nb)]
        steps = concrete(ctx, h)
        # what a pool-wide fault does: at all servers, or at the last one only
        for s in steps:
            if s.get("b") == "p*" and "fault" in s and r.random() < 0.6:
                s["b"] = "p%d" % r.randrange(nb)
        closed = any(s["op"] in ("close", "sclose") for s in steps)
        steps += [{"op": "sreconnect", "b": "p*"}] if r.random() < 0.3 and not closed else []
        steps += r.choice([[], [{"op": "version"}], [{"op": "flush"}, {"op": "getm", "ks": ["a", "b", "c"]}], [{"op": "get", "k": "a"}, {"op": "delete", "k": "b"}]])
        steps += [{"op": "close"}, {"op": "conns", "b": "p*"}, {"op": "get", "k": "a"}, {"op": "set", "k": "b"}] if closed or r.random() < 0.3 else []
        sc.append({"id": "single-%05d" % i, "target": "single", "proto": "text" if len(set(protos)) > 1 else protos[0], "protos": protos, "nb": nb,
                   "steps": steps, "keyset": r.choice(["", "", ""] + KEYSETS), "mode": r.choice(["", "", "frag"]),
                   "net": "tcp" if r.random() < 0.05 else "unix"})
    # many keys over many servers, with everything that is keyed
    for i in range(60 if q else 1000):
        nb = r.choice([2, 3, 4, 6])
        protos = [r.choice(PROTOS) for _ in range(nb)]
        ks = ["q%d" % j for j in range(30)]
        steps = []
        for _ in range(60):
            k = r.choice(ks)
            op = r.choice(["set", "set", "get", "add", "replace", "delete", "incr", "touch", "getm"])
            steps.append({"op": op, "ks": r.sample(ks, 7)} if op == "getm" else {"op": op, "k": k, "d": 1, "x": 0} if op != "touch" else {"op": op, "k": k, "x": 500})
        steps += [{"op": "version"}, {"op": "flush"}, {"op": "getm", "ks": ks}, {"op": "close"}, {"op": "conns", "b": "p*"}]
        sc.append({"id": "wide-%05d" % i, "target": "single", "proto": "text", "protos": protos, "nb": nb, "steps": concrete(ctx, steps)})
    # what one server answers to a question all are asked, again and again
    for i in range(90 if q else 1500):
        nb = r.choice([1, 2, 3, 5])
        protos = [r.choice(PROTOS) for _ in range(nb)]
        steps = [{"op": "set", "k": k, "v": "u"} for k in "abc"]
        for _ in range(r.randint(2, 6)):
            f = r.choice([{"kind": "err", "n": 0}] * 3 + [{"kind": k, "n": 0} for k in ("cut", "cutpre")])
            steps += [{"op": "version"}] if r.random() < .7 else []
            steps += [{"op": r.choice(["version", "version", "flush"]), "fault": dict(f), "b": "p%d" % r.randrange(nb)}]
            steps += [{"op": "sreconnect", "b": "p*"}] if f["kind"] != "err" else []
            steps += [r.choice([{"op": "version"}, {"op": "getm", "ks": ["a", "b", "c"]}, {"op": "flush"}])]
        sc.append({"id": "all-%05d" % i, "target": "single", "proto": "text" if len(set(protos)) > 1 else protos[0], "protos": protos, "nb": nb,
                   "steps": concrete(ctx, steps)})
    mine = lambda x: x not in ("mut", "recheck", "item.srv", "item.ttl", "item.cas", "item.flags")
    ctx.campaign("single", sc, "PoolTrace", mine, timing=TIMING)
    return ["memcached is represented by emulators whose every answer is checked against the Store specification"]


RINV = ["TypeOK", "GetIsPool", "MissIsMiss", "SetIsPool", "CasIsPool", "RefusedUnchanged", "ErrorHasCause", "NeverPretends"]


def router(**over):
    c = dict(Keys={"a"}, Vals={"u"}, Flags={"0", "ff"}, Exps={0, 2}, Clients={"text", "meta", "binary"},
             Faults=tset([{"kind": k, "tier": t} for k in KINDS for t in "ps"]), MaxFaults=1, MaxLen=4, MaxKs=1, MaxNow=2, EmitAll=True, Mut="")
    c.update(over)
    return Model(c, view="View", inv=RINV, emit="Emit")


def router_walk(n, **over):
    m = router(EmitAll=False, MaxLen=n, **over)
    m.view = m.emit = None
    return m


def router_scen(ctx, name, hs, **kw):
    r = ctx.rng
    res = []
    for i, h in enumerate(hs):
        steps = [dict(s) for s in h]
        raw = r.random() < 0.3
        for s in steps:
            if raw and s.get("c") == "meta" and s["op"] in ("get", "reconnect"):
                s["c"] = "raw"
            if s["op"] in ("set", "xset"):
                if s.get("v") == "u":
                    s["v"] = r.choice(["u", "u", "crlf", "reply", "bin", "magic", "e", "len1", "len300", "len5000", "n5"]) \
                        if r.random() < 0.93 else edge(r)
                s["f"] = r.choice(["0", "1", "ff", "7fffffff", "80000000", "ffffffff", "a5a5a5a5", ""]) if s.get("f") != "0" else "0"
                if s.get("x") and r.random() < 0.4:
                    s["x"], s["xa"] = r.choice([(100, False), (86400, False), (2591999, False), (2592000, False), (-1, False), (100, True), (3000000, True)])
                    if s["x"] < 0 and s.get("c") == "binary":
                        s["x"] = 7   # the binary protocol has no negative lifetimes
            if "fault" in s:
                s["fault"] = dict(s["fault"])
                if s["fault"]["kind"] == "err":
                    s["fault"]["kind2"] = r.choice(ERRS)
                elif s["fault"]["kind"] == "cut":
                    s["fault"]["at"] = r.choice([0, 0, 1, 2, 5, -1, -2])
        res.append({"id": "%s-%05d" % (name, i), "target": "router", "proto": "meta", "nb": r.choice([1, 2, 3]), "ns": r.choice([1, 2]),
                    "steps": steps, "keyset": r.choice(["", "", ""] + KEYSETS), "mode": r.choice(["", "", "frag"]), **kw})
    return res


def c16(ctx):
    q = ctx.quick
    r = ctx.rng
    ctx.mutants("Router", "Router", [(m, router(Mut=m, Keys={"a", "b"} if m == "first" else {"a"}, MaxKs=2 if m == "first" else 1,
                                                Clients={"text"} if m == "first" else {"meta"}, MaxLen=3).quiet())
                                     for m in ("noflags", "readsec", "errmiss", "first", "dropcas", "dropttl", "ack", "nosec", "pretend")])
    hs = ctx.generate("Router", "Router", router(MaxLen=3 if q else 4))
    hs = ctx.sample(hs, 4000 if q else 20000)
    tail = [{"c": "pool", "op": "get", "k": "a"}] + [{"c": c, "op": o, **({"k": "a"} if o == "get" else {"ks": ["a", "b"]})}
                                                   for c in ("text", "meta", "binary") for o in ("get", "getm") if o == "get" or c == "text"]
    hs = [h + (tail if r.random() < 0.5 else []) for h in hs]
    walks = ctx.generate("Router walks", "Router", router_walk(30, Keys={"a", "b", "c"}, Vals={"u", "n5"}, MaxFaults=3, MaxKs=4, MaxNow=6),
                         simulate=200 if q else 4000, depth=34)
    mine = lambda x: x not in ("mut", "recheck", "item.srv", "restore")
    ctx.campaign("router", router_scen(ctx, "rt", hs) + router_scen(ctx, "walk", walks), "PoolTrace", mine, timing=TIMING | {"creconnect"})
    # the router command itself
    ws = [[s for s in h if s["op"] not in ("drop", "sreconnect") and s.get("fault", {}).get("kind", "err") == "err"] for h in ctx.sample(walks, 6 if q else 40)]
    binary = ctx.build_cmd("./cmd/router")
    if ctx.port_free(8090):
        ctx.campaign("command", router_scen(ctx, "cmd", ws, net="tcp"), "PoolTrace", mine, timing=TIMING | {"creconnect"}, par=1, env={"ROUTER": binary})
    else:
        ctx.notes.append("port 8090 is taken: the router command was not run")
        ctx.log(ctx.notes[-1])
    return ["memcached is represented by emulators whose every answer is checked against the Store specification"]


def c22(ctx):
    import kv
    q = ctx.quick
    r = ctx.rng
    ctx.mutants("Pool (single)", "Pool", [(m, single(Mut=m, Keys={"a"}, MaxKs=1).quiet()) for m in ("route",)])
    mine = lambda x: x == "item.srv"
    # one connection under every kind of name
    hs = [h for h in ctx.generate("Kv reads", "Kv", kv.kv_model(Exps={0}, Ops={"get", "getm", "set", "delete", "incr", "xset"})) if h[-1]["op"] in ("get", "getm")]
    walks = ctx.generate("Kv walks", "Kv", kv.walk_model(30, Keys={"a", "b", "c"}, Exps={0, 1, 3}), simulate=100 if q else 1500, depth=32)
    walks = [h[:len(h) // 2] + [{"op": "reconnect"}] + h[len(h) // 2:] for h in walks]
    sc = kv.dress(ctx, "name", ctx.sample(hs, 900) if q else hs) + kv.dress(ctx, "walk", walks)
    for s in sc:
        s["opt"] = {"names": r.randint(0, 6)}
    ctx.campaign("named", sc, "KvTrace", mine, timing=TIMING)
    # pools of servers of every protocol
    sc = []
    for i in range(240 if q else 3000):
        tgt = r.choice(["single", "single", "replica"])
        nb = r.choice([1, 2, 3, 5, 8])
        protos = [r.choice(PROTOS) for _ in range(nb)] if tgt == "single" else []
        ks = ["q%d" % j for j in range(r.choice([6, 20]))]
        steps = [{"op": "set", "k": k, "v": "n5"} for k in ks if r.random() < 0.8]
        for j in range(60):
            k = r.choice(ks)
            op = r.choice(["get", "get", "getm", "getm", "set", "delete", "incr", "add"])
            steps.append({"op": op, "ks": [r.choice(ks) for _ in range(r.choice([1, 3, 7, 12]))] if r.random() < 0.2 else r.sample(ks, r.choice([1, 3, 6]))}
                         if op == "getm" else {"op": op, "k": k, "v": "n5", "d": 1})
            if j % 20 == 19:
                steps.append({"op": "rebuild"} if r.random() < 0.5 else {"op": "sreconnect", "b": "p*"})
        sc.append({"id": "pool-%04d" % i, "target": tgt, "proto": "text" if tgt == "single" else "meta", "protos": protos, "nb": nb, "ns": r.choice([1, 2]),
                   "steps": steps, "opt": {"coll": r.choice([0, 0, 1])}, "mode": r.choice(["", "frag"])})
        if not sc[-1]["opt"]["coll"]:
            sc[-1]["opt"] = {"names": r.randint(0, 6)}
    ctx.campaign("pools", sc, "PoolTrace", mine, timing=TIMING)
    return ["memcached is represented by emulators whose every answer is checked against the Store specification"]


CHECKS = {"C22": c22, "C16": c16, "C10": c10, "C11": c11, "C12": c12}
