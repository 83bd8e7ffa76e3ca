#!/usr/bin/env python3
"""Writes properties.jsonl. The statements live here so that they are readable and diffable."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(text.split())), why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))

CS = "client/server.go"
p("C01", "A reply is only ever delivered to the request that caused it",
  """On every client connection (text, meta and binary protocol) a call that reports success reports the backend's
  answer to that very call, whatever preceded it on the connection: timeouts whose answer arrives late, cut or truncated
  answers, misses, conflicts and error answers. A call whose complete answer was received, whatever its status, leaves
  the connection usable and in step for the next call.""",
  ["fault_sequences", "histories"],
  """All sequences of calls of every kind on one connection, with a fault (late, partial, cut, error answer) possible at
  every call, for the three protocols.""",
  """The tests issue one or two successful calls per connection against a healthy memcached; no test continues after a
  failed, timed-out or conflicting call, which is where a reply can be left unread or arrive late.""",
  [CS], [("request/reply under one mutex, reply read to its end", CS), ("connection given up after an I/O error", CS)],
  [("raw, conn", "the socket and its buffered reader/writer", CS)], ["Server interface calls", "bytes at the backend socket"])
p("C02", "Client calls have memcached's key-value semantics",
  """For every sequential history of get, set, add, replace, delete, increment, decrement, touch, flush and version calls
  and passing time against a memcached, each call reports exactly the outcome memcached's key-value semantics assign to
  it (success with that value or number, not found, exists, or error) and changes the stored items in exactly that way.
  This holds alike for the text, meta and binary protocols except where the protocols themselves differ: a binary
  increment or decrement of a missing key creates it with the value 1, a meta delete of a missing key succeeds, and only
  get, replace, add, text/binary delete, text touch and text/meta increment must use the specific not-found/exists errors.""",
  ["histories", "inputs"],
  "All finite call histories over any keys, values and expirations, for the three protocols.",
  """Each test runs one operation kind on one fresh key; no test combines operations, and add/replace are skipped for the
  meta protocol altogether.""",
  [CS, "client/client.go"], [("one method per operation and protocol", CS)], [], ["Server interface calls", "items stored in the backend"])
p("C03", "Compare-and-swap never overwrites a newer version",
  """A Set carrying the CAS token of an item returned by Get or GetMulti takes effect only if the item has not been
  modified since that read; otherwise it reports failure (exists, if the key is still there) and leaves the item as it is.
  Every item returned by Get or GetMulti, on every protocol, carries the token of the version that was read, and a call
  that carries no token is never made conditional.""",
  ["histories"],
  "All interleavings of reads, conditional and unconditional writes by any number of clients, for the three protocols.",
  """Tests do one successful and one stale CAS per protocol on a Get token as the last call of a connection; tokens from
  GetMulti, later calls on the same connection, and other writers are not exercised.""",
  [CS, "client/client.go"], [("Item.Cas sent as cas command / C flag / header CAS", CS)], [("Item.Cas", "version token", "client/client.go")],
  ["Server interface calls"])
p("C04", "Concurrent callers of one connection or pool are linearizable",
  """Any number of goroutines may call the same connection or pool object, on any protocol and with any mix of operations:
  every call behaves as if it were executed alone at one instant between its start and its return, and gets its own result.""",
  ["schedules", "histories"],
  "All interleavings of concurrent calls on one connection object, with answers arriving in arbitrary fragments and delays.",
  "All tests are single-threaded.",
  [CS], [("per-connection mutex held across request and reply", CS)], [("mu", "serialises calls", CS)], ["Server interface calls"])
p("C05", "GetMulti returns exactly the requested keys that exist",
  """GetMulti returns, for every requested key that exists at its backend, one item with that key's own value and flags,
  and nothing else, whichever keys are missing, in whatever order they are requested and however they are spread over
  servers. Missing keys are not an error, and the connection remains usable afterwards.""",
  ["inputs", "histories"],
  "All key lists (any subset present, any order and length) for the three protocols and for pools of any size.",
  "The tests request only keys that are all present, from a single server, and never use the connection again.",
  [CS, "client/client.go", "cluster/cluster.go"], [("multi get terminated by END / MN / NOOP", CS), ("grouping keys by server", "client/client.go")], [],
  ["GetMulti of connections and pools"])
p("C06", "Keys, values, flags and expirations survive unchanged",
  """A value of any bytes and any length the backend accepts, any 32-bit flags and any legal key come back from Get and
  GetMulti byte for byte, and the expiration given to set, add, replace or touch is the one the backend applies; the
  remaining lifetime that a meta read reports can be stored again without changing whether or when the item expires.
  Calls never modify memory the caller passed in, and an item once returned never changes afterwards.""",
  ["inputs"],
  """All values (empty, containing protocol text or CRLF, larger than any buffer), all flags, all legal keys, all
  expirations; for the three protocols and every storing operation.""",
  "Tests use a handful of short ASCII values, flags 1, and relative expirations 10 and 90.",
  [CS, "client/client.go"], [("request encoders and reply parsers", CS)], [("Item", "key, value, flags, expiration", "client/client.go")],
  ["Server interface calls", "items stored in the backend", "caller's slices"])
p("C07", "No false success, no false miss",
  """A call reports success only if the backend confirmed that operation, and reports not-found or exists only if the
  backend said the key was absent or present; an error answer of the backend (out of memory, too large, busy, bad command,
  non-numeric value, ...) is reported as an error that is neither. This holds for every operation and protocol.""",
  ["fault_sequences", "inputs"],
  "Every operation, every protocol, every error answer memcached can give, at every point of a history.",
  "No test makes the backend answer with an error.",
  [CS], [("classification of reply lines and status codes", CS)], [], ["Server interface calls"])
p("C08", "Key placement depends only on the key and the set of servers",
  """Two pools built from the same set of server names send every key to the same server, whatever order the servers were
  listed in, in whatever process and however often they are built. Every operation (get, multi-get, set, delete, ...) of a
  pool uses that same server for the key.""",
  ["inputs", "configurations"],
  """All sets of server names, all orderings of the list and all keys, including keys whose hash equals a ring point and
  server names whose ring points collide.""",
  "One test looks up two keys in a hand-made ring of four nodes; the constructed ring is never compared with anything.",
  ["client/ring.go", "client/client.go"], [("sorted ring of hashed points, predecessor search", "client/ring.go")],
  [("nodes", "ring points sorted by hash", "client/ring.go")], ["Ring.Pick", "backend that received the request"])
p("C09", "Adding or removing a server moves only that server's keys",
  """When a server is added to a pool, every key either stays on the server it had or moves to the new server; when a
  server is removed, only keys it held move. Every key always has exactly one owner among the pool's servers.""",
  ["inputs", "configurations"],
  "All server sets, all servers to add or remove, and all keys, including keys that hash exactly onto a ring point.",
  "No test changes the membership of a ring.",
  ["client/ring.go"], [("consistent hashing with points per server", "client/ring.go")], [("nodes", "ring points", "client/ring.go")], ["Ring.Pick"])
p("C10", "Pool operations use the key's server only; pool-wide ones reach all",
  """Every keyed operation of a pool is executed exactly once, by the one backend that owns the key, and no other backend
  sees it; GetMulti asks each backend for exactly the keys it owns. Flush and Version report success only if every server
  performed it, Version reports each server's own answer under its name, and Close closes the connection to every server
  even if closing one of them fails.""",
  ["configurations", "fault_sequences"],
  "All pool sizes, keys, operations, and failures of any subset of the servers.",
  "Every pool test has a single server.",
  ["client/client.go", "client/ring.go"], [("ring.Pick per key, ring.Each for pool-wide", "client/client.go")], [], ["requests seen by each backend"])
p("C11", "A successful replicated write leaves the secondary equal to the primary",
  """When a replica-pool Set (conditional or not), Add, Replace, Delete, Increment or Decrement returns success, the
  secondary server of the key holds the same value, flags and remaining lifetime for it as the primary server does, or
  neither holds it, provided no other write to that key overlapped. Items without expiration stay without expiration; and while
  both servers answer normally, a write the primary accepts returns success.""",
  ["histories", "inputs"],
  "All sequential histories of replica-pool writes per key, any value, flags, expiration, CAS use, several servers per tier.",
  """The tests look at the secondary only after one Increment and one Decrement of an item with flags 1 and expiration 10;
  conditional sets, items that never expire and long expirations are not exercised.""",
  ["cluster/cluster.go", CS], [("write-through primary then secondary", "cluster/cluster.go")], [("primary, secondary", "the two rings", "cluster/cluster.go")],
  ["items stored in primary and secondary"])
p("C12", "Replication is primary-first and its failures are reported",
  """A replica-pool write that the primary did not accept (conflict, miss, error answer, or broken connection) is reported as failed
  and nothing about it is sent to a secondary; a write that failed only on the secondary is reported as an error too. The
  secondary is never written before the primary accepted the write, and reads are answered by the primary alone (a delete of a key the primary does not
  have counts as accepted).""",
  ["fault_sequences", "histories"],
  "Every replica-pool operation with a fault at every request it makes to either tier.",
  "No test lets either tier fail.",
  ["cluster/cluster.go"], [("error return before the secondary call", "cluster/cluster.go")], [], ["requests seen by each tier", "results"])
p("C13", "The server hands over every request exactly once, in order, intact",
  """Every well-formed request of a supported command (get, gets, set, add, replace, delete, incr, decr, touch, flush_all,
  version, mg, ms, md and the binary get, getkq, set, add, replace, delete, increment, decrement, touch, noop, version, flush;
  replies wanted, i.e. without noreply) reaches the handler exactly once, in the order sent on its connection, with its operation, keys, value, flags, expiration,
  delta, CAS and meta options as sent, and what the handler keeps of it stays as it was. This does not depend on how the byte stream is split into segments, on pipelining, or on
  what other connections do.""",
  ["inputs", "histories", "schedules"],
  "All request sequences, all segmentations of the byte stream, all protocols, several connections at once.",
  "Tests send one request at a time in one segment, with small flags and values, and do not check most decoded fields.",
  ["server/server.go"], [("incremental request parsers", "server/server.go")], [("Protocol", "detected once per connection", "server/server.go")],
  ["Handler.ServeRequest arguments"])
p("C14", "No client input can crash the server or harm other connections",
  """Whatever bytes clients send (negative, oversized or inconsistent lengths, missing or empty tokens, truncated requests, binary headers
  with impossible sizes), whenever they disconnect, and when they stop sending or stop taking their replies, the server process
  keeps running and keeps serving its other connections, also while the handler is busy with one of them. A malformed request never reaches the handler; its connection is closed or answered with an error.""",
  ["inputs", "fault_sequences"],
  "All byte sequences on any number of connections, with disconnects at any byte.",
  "No test sends a malformed request.",
  ["server/server.go"], [("parse errors end the connection", "server/server.go")], [], ["process liveness", "Handler.ServeRequest calls", "other connections' replies"])
p("C15", "Every served request gets one reply, and it states the outcome",
  """For every request handed to the handler, the client receives exactly one well-formed reply in its protocol, in request
  order: hits carry the handler's value, flags and key, misses look like misses, and an error outcome (not found,
  exists, any other error the handler puts in a response) is an error reply of that kind, never a success and never silence
  (if the handler itself fails, the connection is closed or an error is answered).
  Only requests that ask for quiet misses may get no reply, and only when they miss.""",
  ["inputs", "histories"],
  "All handler outcomes for all supported requests and protocols, pipelined in any way.",
  "Tests cover only successful outcomes with one request outstanding.",
  ["server/server.go"], [("writeResponse per protocol", "server/server.go")], [], ["bytes received by the client"])
p("C16", "Get and Set through the router equal Get and Set on the primary",
  """Clients of the router see, for get and set (single-key in the meta and binary protocol, text also multi-key), what they
  would see on the primary server of the key: hits return the stored value and flags, a missing key is a miss, a conditional set that lost
  is reported as conflict and changes nothing. A successful set is stored in both tiers with the same value, flags and
  expiration, and a backend failure never looks like success or like a miss; an operation the router
  does not support is never acknowledged.""",
  ["histories", "fault_sequences"],
  "All histories of gets and sets from any mix of clients and protocols through the router, with backend faults.",
  "The proxy and the router have no tests at all.",
  ["proxy/replica_pool.go", "server/server.go", "cluster/cluster.go", "cmd/router/main.go"],
  [("request translation to the replica pool", "proxy/replica_pool.go")], [], ["bytes at router clients", "items stored in both tiers"])
p("C17", "Close is final; Reconnect restores a broken connection",
  """After Close has returned, no call or Reconnect on that connection object succeeds, its socket is closed and nothing more is
  sent to the backend; a second Close reports an error, and neither it nor a Close concurrent with other calls panics or hangs.
  As long as Close was not called, Reconnect with a reachable backend succeeds and gives a clean working connection,
  after any sequence of failed calls, lost connections and failed Reconnects.""",
  ["fault_sequences", "histories", "schedules"],
  "All sequences of calls, connection losses, backend outages, Reconnect and Close, for the three protocols.",
  "One test reconnects once after one clean restart of memcached; Close is only called once, at the end.",
  [CS], [("Close and Reconnect", CS)], [("raw, closeCh", "socket and close signal", CS)], ["Server interface calls", "connections at the backend"])
p("C18", "Heartbeat keeps a connection alive and ends with Close",
  """With heartbeat and auto-reconnect enabled, a connection whose backend link breaks becomes usable again by itself soon after
  the backend is reachable, any number of times and also when the backend stayed unreachable over several heartbeats. With heartbeat
  and no auto-reconnect, a failed heartbeat closes the connection object; in either mode a healthy connection is never dropped, and
  after Close there are no more heartbeats and no new connections.""",
  ["fault_sequences", "schedules"],
  "All sequences of link losses, outages and Close relative to heartbeats, for the three protocols.",
  "No test enables the heartbeat.",
  [CS], [("heartbeat goroutine", CS)], [("closeCh", "stops the heartbeat", CS)], ["connections and version requests at the backend"])
p("C19", "With a Timeout set, no call outlives it",
  """With a Timeout set, every get, multi-get, set, add, replace, delete, increment, decrement, touch, flush and version call on every protocol
  returns an error about one Timeout after the backend stops answering or reading, at whatever point of the exchange that
  happens, and an answer that merely trickles in does not extend it. A backend that answers in time never causes a timeout, however long the connection has been idle or in use.""",
  ["fault_sequences", "schedules"],
  "Every operation and protocol, a stall at every point (before, inside and between parts of the answer, unread request).",
  "No test sets a Timeout or stalls the backend.",
  [CS], [("read and write deadlines set per call", CS)], [("Timeout", "per-call limit", CS)], ["duration and result of calls"])
p("C20", "No key can inject or break commands",
  """For every key string whatsoever (empty, longer than the protocol allows, containing spaces, line breaks or other control
  bytes), a client call either operates on exactly that key or returns an error without the backend executing anything
  else. The connection stays usable and in step afterwards.""",
  ["inputs"],
  "All key strings, all keyed operations, the three protocols.",
  "Tests only use short keys made of letters, digits, slashes and underscores.",
  [CS], [("key validation before a request is written", CS)], [], ["commands executed by the backend", "Server interface calls"])
p("C21", "Keys are spread over all servers of a pool",
  """Of any large number of distinct keys every server of a pool gets a fair share: no server gets less than half or more than
  twice the average, whatever the number and names of the servers and the style of the keys, before and after servers join or leave.""",
  ["inputs", "configurations"],
  "All sets of server names, all large families of keys.",
  "No test builds a ring of real names and counts.",
  ["client/ring.go", "client/client.go"], [("ring of 200 hashed points per server", "client/ring.go")], [("nodes", "ring points", "client/ring.go")], ["Ring.Pick", "server that gets the call"])
p("C22", "Every item read names the server it came from",
  """The Server field of every item that a get or multi-get returns, on each protocol and through a pool, is the name of the server
  that the item was read from, whatever that name is.""",
  ["inputs", "configurations"],
  "All protocols, keys, server names, pools of any size and mix of protocols, lists of keys spread over servers.",
  "No test looks at the Server field.",
  [CS, "client/client.go", "cluster/cluster.go"], [("items are labelled with the name of the connection", CS)], [("Item.Server", "where an item was read", "client/client.go")], ["Get and GetMulti results", "backend that answered"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
