"""Placement of keys: C08, C09 and C21."""
import lib
from lib import Model
from kv import PROTOS, TIMING


def model(**over):
    c = dict(Names={"a", "b", "c"}, H=5, NPts=2, Mut="")
    c.update(over)
    return Model(c, inv=["Determined", "Member", "MinimalMoves"])


def design(ctx):
    ctx.check_design("Ring", "Ring", model() if ctx.quick else model(H=6))
    ctx.mutants("Ring", "Ring", [(m, model(Mut=m)) for m in ("notie", "exact", "count", "signed")])


def scenarios(ctx):
    r = ctx.rng
    sc = []
    for i in range(48 if ctx.quick else 500):
        if i % 6 == 5:
            # many servers; the number is about to pass a multiple or a power of something
            n = r.choice([12, 16, 17, 20, 24, 32, 33, 40, 50, 64, 65, 100, 128, 130, 200, 256, 257, 300])
            start = n - r.choice([1, 2, 3])
        else:
            n, start = r.choice([1, 2, 3, 4, 5, 6, 8, 9, 10, 11]), r.choice([0, 0, 1, 2, 4, 7])
        sc.append({"id": "ring-%04d" % i, "target": "ring",
                   "opt": {"coll": r.choice([0, 1, 2, 3]), "names": n, "start": start, "pts": 60 if ctx.quick else 150, "perm": 2,
                           "steps": r.choice([3, 5, 7]), "rnd": 100}})
    return sc


def placement(ctx, mine):
    sc = scenarios(ctx)
    for s in sc:
        s["seed"] = ctx.seed

    def twice(traces):
        # the same sets of servers in another process
        more = ctx.run("ring2", [dict(s) for s in sc], mode="ring", par=1, env={"GOMAXPROCS": "2"})
        by = {t["id"]: t for t in more}
        for t in traces:
            if t["id"] in by:
                t["ev"] = t["ev"] + by[t["id"]]["ev"]
    ctx.campaign("placement", sc, "RingTrace", mine, mode="ring", par=8, post=twice)


def rebuilt(ctx, mine):
    """Real pools over real connections, rebuilt with the servers in another
    order between the calls."""
    r = ctx.rng
    sc = []
    for i in range(60 if ctx.quick else 800):
        tgt = r.choice(["single", "single", "replica"])
        nb, ns = r.choice([2, 3, 5]), r.choice([1, 2, 3])
        protos = [r.choice(PROTOS) for _ in range(nb)] if tgt == "single" else []
        ks = ["q%d" % j for j in range(16)]
        steps = []
        for j in range(70):
            k = r.choice(ks)
            op = r.choice(["set", "set", "get", "add", "replace", "delete", "incr", "getm", "cas"] + (["touch"] if tgt == "single" else []))
            if op == "getm":
                steps.append({"op": op, "ks": r.sample(ks, 6)})
            elif op == "cas":
                steps += [{"op": "get", "k": k}, {"op": "set", "k": k, "v": "n5", "cas": "obs"}]
            elif op == "touch":
                steps.append({"op": op, "k": k, "x": 100})
            else:
                steps.append({"op": op, "k": k, "v": "n5", "d": 1})
            if op == "incr":
                steps[-1].pop("x", None)
            if j % 10 == 9:
                steps.append({"op": "rebuild"})
        sc.append({"id": "rebuilt-%04d" % i, "target": tgt, "proto": "text" if tgt == "single" else "meta", "protos": protos, "nb": nb, "ns": ns,
                   "steps": steps, "opt": {"coll": r.choice([0, 1, 1])}})
    ctx.campaign("rebuilt", sc, "PoolTrace", mine, timing=TIMING)


def c08(ctx):
    design(ctx)
    placement(ctx, lambda x: x in ("order", "op", "owner", "panic"))
    rebuilt(ctx, lambda x: x in ("route", "dup", "noexec"))
    return ["the ring points of the pinned version are used to aim keys at the edges; the relations checked do not depend on them"]


def c09(ctx):
    design(ctx)
    placement(ctx, lambda x: x in ("moves", "owner", "panic"))
    return ["the ring points of the pinned version are used to aim keys at the edges; the relations checked do not depend on them"]


def c21(ctx):
    design(ctx)
    r = ctx.rng
    sc = [{"id": "share-%04d" % i, "target": "ring", "seed": ctx.seed,
           "opt": {"share": 800, "names": [1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 10, 12, 16, 20, 32, 40, 64, 100][i % 18]}} for i in range(72 if ctx.quick else 900)]
    r.shuffle(sc)
    ctx.campaign("shares", sc, "RingTrace", lambda x: x in ("share", "owner", "panic"), mode="ring", par=8)
    return ["a share is measured with 800 keys per server, in runs of keys of five styles; fair means between half and twice the average, the most extreme share seen is 0.72 and 1.37 of it"]


CHECKS = {"C08": c08, "C09": c09, "C21": c21}
