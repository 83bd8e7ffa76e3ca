#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
 "C01": "Kv.tla model checked; its disturbed behaviours replayed on the real client; every recorded execution checked by KvTrace.tla",
 "C02": "Kv.tla model checked; all abstract transitions and random walks replayed on the real client; KvTrace.tla judges every execution",
 "C03": "Kv.tla model checked; token transitions and walks replayed on the real client; KvTrace.tla judges every execution",
 "C04": "Conn.tla (callers, mutex, link, Close, Reconnect) model checked with mutants; its behaviours run as real threads; LinTrace.tla searches a linearization of every recorded execution",
 "C05": "Kv.tla key lists replayed on connections and pools; KvTrace.tla/PoolTrace.tla judge every execution",
 "C06": "Fid.tla enumerates value/flag/expiration/key classes; KvTrace.tla compares call, wire, store and result",
 "C07": "Kv.tla with every error answer replayed on the real client; KvTrace.tla judges every result",
 "C08": "Ring.tla model checked with mutants; placements of real rings and pools, with keys aimed at the ring points, checked by RingTrace.tla and PoolTrace.tla",
 "C09": "Ring.tla model checked with mutants; placements before and after membership changes checked by RingTrace.tla",
 "C10": "Pool.tla (single) model checked with mutants; its behaviours replayed on real SinglePools; PoolTrace.tla judges every execution",
 "C11": "Pool.tla (replica) model checked with mutants; its behaviours replayed on real ReplicaPools; PoolTrace.tla compares both tiers after every success",
 "C12": "Pool.tla (replica) model checked with mutants; its behaviours replayed on real ReplicaPools; PoolTrace.tla judges order, reports and reads",
 "C13": "ServerConn.tla model checked with mutants; its behaviours (requests, segmentations, connections) run on the real server; ServerTrace.tla judges what the handler was given",
 "C14": "ServerConn.tla model checked with mutants; malformed requests and damaged streams run on the real server; ServerTrace.tla judges survival and the other connections",
 "C15": "ServerConn.tla model checked with mutants; its behaviours run on the real server with every outcome of the handler; ServerTrace.tla judges the replies",
 "C16": "Router.tla model checked with mutants; its behaviours run through real routers (in process and the router command) with clients of all protocols; PoolTrace.tla judges every execution against the pool behind",
 "C17": "Conn.tla (callers, mutex, link, Close, Reconnect) model checked with mutants and for termination; its behaviours run on real connections, alone and as threads; KvTrace.tla and LinTrace.tla judge every execution",
 "C18": "Conn.tla with a heartbeat model checked for safety and liveness, with mutants; its behaviours run on real connections with heartbeats; LinTrace.tla judges healing, closing and the silence after Close",
 "C19": "Conn.tla model checked: every call ends; Kv.tla's calls disturbed at every point of the exchange, idle and long used connections and queued callers run on real connections; KvTrace.tla and LinTrace.tla judge every result and its duration",
 "C20": "Inj.tla enumerates key classes and operations; KvTrace.tla judges every execution",
 "C21": "Ring.tla model checked with mutants (the owner is a function of the points, every arc counts); shares of real rings and pools counted and judged by RingTrace.tla",
 "C22": "Kv.tla and Pool.tla (with mutants) give the histories; KvTrace.tla and PoolTrace.tla compare the label of every item read with the backend that answered",
}
EXTRA = os.path.join(V, "tools", "notes.json")
if os.path.exists(EXTRA):
    NOTE.update(json.load(open(EXTRA)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NOTE:
        checks.append({"property": i, "quick_cmd": "python3 bin/check.py " + i,
                       "thorough_cmd": "VERIF_TIER=thorough python3 bin/check.py " + i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": "TLA+ specification checked with TLC, bound to the code by replaying its behaviours and checking recorded traces against it",
                       "level": "model_checking", "level_note": NOTE[i]})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "bash bin/setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
