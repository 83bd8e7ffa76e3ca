"""The server package: C13, C14 and C15."""
from lib import Model, tset

STORE_OUTS = ["ok", "nf", "ex", "err", "merr", "none"]
TEXT_BAD = ("text neglen neglen2 biglen overlen nanlen hexlen nanflags bigflags negflags nanexp short shorter only longdata nocr getnone getsnone "
            "getspace delnone incrnone incrone incrnan incrneg incrbig touchone touchnan mgnone msnone msone msneg msnan msbig msS msFnan msTnan msCnan "
            "msF mslong msmode mdnone unknown empty lf blank upper flushnan nul resp reply bin mgO long").split()[1:]
BIN_BAD = ("keyover extraover zerototal setnoextra setextra4 getextra getvalue getnokey setnokey delextra incrshort incrval incrnoextra touchnoextra "
           "touch8 unknown opff magic resp flushkey flush8 noopkey verval kqextra max addover neg").split()


def form(p, op, var, n, outs, nks=(1,)):
    return {"p": p, "op": op, "var": var, "n": n, "outs": set(outs), "nks": set(nks)}


def forms(herr=True):
    h = ["herr"] if herr else []
    g = ["hit", "miss", "nf", "ex", "err", "merr"] + h
    o = STORE_OUTS + h
    fs = [form("text", "get", "", 4, g + ["mixed"], (1, 2, 3)), form("text", "get", "gets", 4, g + ["mixed"], (1, 2, 3)),
          form("text", "get", "meta", 4, g + ["val"], (1, 2))]
    for op in ("set", "add", "replace"):
        fs += [form("text", op, "", 7, o), form("text", op, "meta", 7, o), form("bin", op, "", 5, o)]
    fs += [form("text", "delete", "", 4, o), form("text", "delete", "meta", 4, o), form("bin", "delete", "", 5, o)]
    for op in ("incr", "decr", "touch"):
        fs += [form("text", op, "", 4, o), form("bin", op, "", 5, o)]
    for p, n in (("text", 4), ("bin", 5)):
        fs += [form(p, "flush", "", n, ["ok", "err", "merr", "none"]), form(p, "flush", "delay", n, ["ok", "err", "none"]),
               form(p, "version", "", n, ["ok", "err", "none"])]
    fs += [form("bin", "get", "", 5, g), form("bin", "get", "getkq", 5, g), form("bin", "noop", "", 5, ["ok", "err", "none"])]
    return fs


def bads():
    return [form("text", "bad", v, 2, [""]) for v in TEXT_BAD] + [form("bin", "bad", v, 2, [""]) for v in BIN_BAD]


INV = ["Intact", "BadNever", "OneReply", "AllServed"]


def model(**over):
    small = [form("text", "get", "", 2, ["hit", "miss", "err"]), form("text", "set", "", 3, ["ok", "herr"]), form("bin", "get", "getkq", 2, ["miss", "hit"]),
             form("text", "bad", "", 2, [""])]
    c = dict(NC=2, MaxReq=2, MaxTotal=3, Forms=tset(small), Cuts="none", MaxBad=1, Ends={"eof", "trunc"}, Mode="check", Mut="")
    c.update(over)
    return Model(c, inv=INV, view="View")


def design(ctx):
    if ctx.quick:
        ctx.check_design("ServerConn", "ServerConn", model(Ends={"eof"}))
        ctx.check_design("ServerConn, one connection, every segmentation", "ServerConn", model(NC=1, MaxReq=2, Cuts="all"))
    else:
        ctx.check_design("ServerConn", "ServerConn", model())
        ctx.check_design("ServerConn, every segmentation", "ServerConn", model(Cuts="all", MaxTotal=2))
        ctx.check_design("ServerConn, three connections", "ServerConn", model(NC=3, MaxReq=1, MaxTotal=3))
    live = model(MaxTotal=2, Ends={"eof", "stay"})
    live.spec, live.props = "Spec", ["Progress"]
    ctx.check_design("ServerConn, liveness", "ServerConn", live)
    ctx.mutants("ServerConn", "ServerConn", [(m, model(Mut=m, Ends={"eof"})) for m in ("droprest", "shared", "silent", "twice", "reorder", "early", "poison", "lenient")])
    lock = model(Mut="lock", MaxTotal=2, Ends={"eof", "stay"})
    lock.spec, lock.props = "Spec", ["Progress"]
    ctx.mutants("ServerConn, liveness", "ServerConn", [("lock", lock)])


def walk(ctx, n, **over):
    """Random walks of the specification."""
    c = dict(NC=3, MaxReq=5, MaxTotal=9, Forms=tset(forms()), Cuts="random", MaxBad=0, Ends={"eof"}, Mode="walk", Mut="")
    c.update(over)
    return ctx.generate("ServerConn walks", "ServerConn", Model(c, inv=INV), simulate=n, depth=260)


def single(ctx, fs):
    """Every form of a request with every segmentation."""
    c = dict(NC=1, MaxReq=1, MaxTotal=1, Forms=tset(fs), Cuts="all", MaxBad=1, Ends={"eof"}, Mode="all", Mut="")
    return ctx.generate("ServerConn requests", "ServerConn", Model(c, inv=INV))


def dress(ctx, scs, name, probe=False):
    r = ctx.rng
    for i, s in enumerate(scs):
        s["id"] = "%s-%05d" % (name, i)
        s["target"] = "srv"
        for c in s["conns"]:
            for q in c["reqs"]:
                if q["out"] == "mixed":
                    q["out"] = "hit"
                    q["outs"] = [r.choice(["hit", "hit", "miss", "miss", "err" if r.random() < .3 else "hit"]) for _ in range(3)]
                if q["op"] == "get" and q.get("var") in ("", "gets") and q.get("nk", 1) > 1 and q["out"] in ("hit", "miss") and r.random() < .06:
                    q["nk"] = r.choice([20, 100, 300])     # a long line
            if probe:
                c["reqs"].append({"op": "get", "var": "", "out": "hit", "nk": 1, "cut": []})
    return scs


def vary(ctx, scs):
    """Ways of running the same behaviour."""
    r = ctx.rng
    for s in scs:
        x = r.random()
        s["opt"] = {"delay": 1 if r.random() < .3 else 0, "accepterr": 2 if x > .9 else 0}
        if x < .12:
            s["mode"] = "bytes"
        elif x < .35:
            s["mode"] = "rush"
        elif x < .45:
            s["net"] = "unix"
        elif x < .5:
            s["net"] = "tcp"
    return scs


CFG = "CONSTANT MaxMb = 96\n"
TIMING = {"lost", "noreply", "fresh", "stuck", "line", "mem", "reply.garbage", "extra"}
WRONG = ("fld.", "lost", "extra", "twice", "partial")


def served(ctx, mine, n):
    one = dress(ctx, ctx.sample(single(ctx, forms(False)), 2500 if ctx.quick else 10**9), "one", True)
    ctx.campaign("one", one, "ServerTrace", mine, mode="srv", timing=TIMING, extra_cfg=CFG, par=16)
    sc = vary(ctx, dress(ctx, walk(ctx, n), "walk"))
    ctx.campaign("walk", sc, "ServerTrace", mine, mode="srv", timing=TIMING, extra_cfg=CFG, par=16)


def pauses(ctx, n):
    """Clients that take their time."""
    sc = dress(ctx, walk(ctx, n), "slow")
    for i, s in enumerate(sc):
        s["net"] = ctx.rng.choice(["unix", "tcp"])
        s["opt"] = {"pause": 12000 if i % 4 == 0 else 3500}
        s["order"] = s.get("order", [])[:ctx.rng.randint(0, 3)]
    return sc


def crowds(ctx, n):
    """Clients that come and go, and clients that come and stay."""
    r = ctx.rng
    sc = dress(ctx, walk(ctx, n), "crowd")
    for i, s in enumerate(sc):
        s["opt"] = {"churn": r.choice([0, 300, 1500, 3000]), "crowd": r.choice([0, 50, 300, 1000])}
    return sc


def c13(ctx):
    design(ctx)
    sc = pauses(ctx, 16 if ctx.quick else 120)
    ctx.campaign("slow", sc, "ServerTrace", lambda x: x.startswith(WRONG) or x == "crash", mode="srv", timing=TIMING, extra_cfg=CFG, par=16 if ctx.quick else 60)
    served(ctx, lambda x: x.startswith(WRONG) or x == "crash", 600 if ctx.quick else 12000)
    sc = vary(ctx, dress(ctx, walk(ctx, 250 if ctx.quick else 4000, Ends={"eof", "trunc", "reset", "stay"}), "left"))
    ctx.campaign("left", sc, "ServerTrace", lambda x: x.startswith(WRONG), mode="srv", timing=TIMING, extra_cfg=CFG, par=16)
    return ["keys and numbers of requests are drawn from classes (boundaries, separators, bytes of the protocols themselves); not proved for all values"]


def c14(ctx):
    design(ctx)
    mine = lambda x: x in ("crash", "fresh", "stuck", "mem", "line", "bad.delivered", "extra", "partial", "lost", "noreply")
    one = dress(ctx, single(ctx, bads()), "bad", True)
    ctx.campaign("bad", one, "ServerTrace", mine, mode="srv", timing=TIMING, extra_cfg=CFG, par=16)
    sc = vary(ctx, dress(ctx, walk(ctx, 500 if ctx.quick else 10000, Forms=tset(forms() + bads()), MaxBad=2, Ends={"eof", "trunc", "reset", "stay"}), "mix"))
    ctx.campaign("mix", sc, "ServerTrace", mine, mode="srv", timing=TIMING, extra_cfg=CFG, par=16)
    sc = pauses(ctx, 8 if ctx.quick else 60) + crowds(ctx, 40 if ctx.quick else 600)
    ctx.campaign("crowd", sc, "ServerTrace", mine, mode="srv", timing=TIMING, extra_cfg=CFG, par=8 if ctx.quick else 30)
    r = ctx.rng
    fz = [{"id": "fuzz-%04d" % i, "target": "srv", "opt": {"rounds": 2500 if ctx.quick else 25000}, "seed": r.randrange(1 << 30)} for i in range(24 if ctx.quick else 80)]
    ctx.campaign("fuzz", fz, "ServerTrace", mine, mode="fuzz", timing=TIMING, extra_cfg=CFG, par=8)
    mem = [{"id": "mem-0", "target": "srv", "opt": {"rounds": 10, "mem": 1}, "seed": ctx.seed}]
    ctx.campaign("mem", mem, "ServerTrace", mine, mode="fuzz", timing=TIMING, extra_cfg=CFG, par=1)
    return ["arbitrary bytes are sampled (damaged requests), the malformed forms are enumerated",
            "memory: a claim of length alone must not make the server allocate more than 96 MB for three connections"]


def c15(ctx):
    design(ctx)
    served(ctx, lambda x: x.startswith(("reply", "noreply")) or x == "crash", 700 if ctx.quick else 12000)
    return ["handlers that answer with responses whose Flags are not 0 or 4 bytes are outside the interface"]


CHECKS = {"C13": c13, "C14": c14, "C15": c15}
