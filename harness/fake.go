package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Backend is a memcached emulator (text, meta and binary protocol) with a
// virtual clock, scripted faults and a log of every command it executes. Its
// replies are checked against the TLA+ store specification by the trace
// specifications, and its behaviour was compared with memcached 1.6.24.
type Backend struct {
	ID      string
	Network string
	Addr    string

	rec *Rec

	mu    sync.Mutex
	items map[string]*item
	cas   uint64
	now   int64 // virtual seconds since base
	base  int64 // unix time of virtual second 0

	ln      net.Listener
	conns   map[*bconn]bool
	nconn   int
	plan    *Fault // armed for the next request
	mode    string // "" or "frag": how replies are written
	maxVal  int
	verbose bool // log accept/eof events
	noexec  bool
	closed  bool
	enOld   bool // mg misses of old versions carry no tokens
	wg      sync.WaitGroup
	delayFn func() time.Duration // extra latency per reply (concurrency campaigns)
	held    chan struct{}        // when set, every command waits for it (concurrency campaigns)
	reads   int64                // requests seen
	onFault func()
	watch   func()       // called with every command that is executed
	jam     net.Listener // listening, but not accepting
	filler  map[string]bool
	fillers []net.Conn
}

type item struct {
	v []byte
	f uint32
	x int64 // absolute virtual second or never
	c uint64
}

// Fault describes what goes wrong with the reply to one API call.
//
//	stall: `At` reply bytes are sent, the rest is held back until Release
//	cut:   `At` reply bytes are sent, then the connection is closed
//	cutpre: the connection is closed before the command is executed
//	err:   the command is not executed, error reply `Kind2` is sent
//	noread: the backend stops reading; what arrives is never looked at
//	trickle: the reply comes byte by byte, all together in much more than `N2` ms
//	drip: the reply comes in its parts (lines, headers, bodies), each `N2` ms after the one before
//	slow: `At` reply bytes are sent, the rest `N2` ms later
type Fault struct {
	Kind  string `json:"kind"`
	At    int    `json:"at"`
	Kind2 string `json:"kind2,omitempty"`
	N     int    `json:"n,omitempty"` // apply to the N-th request after arming (0: first)
	N2    int    `json:"n2,omitempty"`

	fired bool
	seen  int
}

type bconn struct {
	b      *Backend
	c      net.Conn
	id     int
	r      *bufio.Reader
	out    bytes.Buffer
	wmu    sync.Mutex
	heldb  []byte // stalled bytes
	stall  bool
	proto  string
	closed int32
	deaf   chan struct{} // set while the backend does not read
}

// Read is what the backend reads requests with.
func (c *bconn) Read(p []byte) (int, error) {
	if err := c.listen(); err != nil {
		return 0, err
	}
	n, err := c.c.Read(p)
	if err == nil {
		if err := c.listen(); err != nil {
			return 0, err
		}
	}
	return n, err
}

// listen waits for the end of a noread fault, with which the connection ends.
func (c *bconn) listen() error {
	b := c.b
	b.mu.Lock()
	f := b.plan
	if f == nil || f.fired || f.Kind != "noread" {
		b.mu.Unlock()
		return nil
	}
	f.fired = true
	b.rec.Add(Ev{"e": "fault", "b": b.ID, "kind": f.Kind})
	ch := make(chan struct{})
	c.deaf = ch
	b.mu.Unlock()
	<-ch
	return io.EOF
}

var sockSeq int64
var scratch string // directory of unix sockets

func NewBackend(id, network string, rec *Rec) (*Backend, error) {
	b := &Backend{ID: id, Network: network, rec: rec, items: map[string]*item{}, conns: map[*bconn]bool{}, maxVal: 1 << 20, base: time.Now().Unix()}
	if network == "unix" {
		b.Addr = fmt.Sprintf("%s/s%d", scratch, atomic.AddInt64(&sockSeq, 1))
	} else {
		b.Addr = "127.0.0.1:0"
	}
	if err := b.listen(); err != nil {
		return nil, err
	}
	return b, nil
}

func (b *Backend) listen() error {
	var ln net.Listener
	var err error
	for i := 0; i < 50; i++ {
		if b.Network == "unix" {
			os.Remove(b.Addr)
		}
		ln, err = net.Listen(b.Network, b.Addr)
		if err == nil {
			break
		}
		time.Sleep(20 * time.Millisecond)
	}
	if err != nil {
		return err
	}
	if b.Network == "tcp" {
		b.Addr = ln.Addr().String()
	}
	b.mu.Lock()
	b.ln = ln
	b.mu.Unlock()
	b.wg.Add(1)
	go b.accept(ln)
	return nil
}

func (b *Backend) accept(ln net.Listener) {
	defer b.wg.Done()
	for {
		c, err := ln.Accept()
		if err != nil {
			return
		}
		b.mu.Lock()
		if b.ln != ln || b.closed {
			b.mu.Unlock()
			c.Close()
			continue
		}
		if b.filler[c.RemoteAddr().String()] {
			b.mu.Unlock()
			c.Close()
			continue
		}
		b.nconn++
		bc := &bconn{b: b, c: c, id: b.nconn}
		bc.r = bufio.NewReaderSize(bc, 1<<16)
		b.conns[bc] = true
		if b.verbose {
			b.rec.Add(Ev{"e": "accept", "b": b.ID, "c": bc.id})
		}
		b.mu.Unlock()
		b.wg.Add(1)
		go bc.serve()
	}
}

// Down closes the listener and all connections; Up listens again on the same address.
func (b *Backend) Down() {
	b.mu.Lock()
	ln := b.ln
	b.ln = nil
	b.rec.Add(Ev{"e": "down", "b": b.ID})
	b.mu.Unlock()
	if ln != nil {
		ln.Close()
	}
	b.Drop()
}

// Jam makes the backend accept no more connections: who dials has to wait.
// Only over TCP, where a full queue of connections makes dialling slow.
func (b *Backend) Jam() error {
	b.mu.Lock()
	ln := b.ln
	b.mu.Unlock()
	if ln == nil || b.Network != "tcp" {
		return errors.New("jam: not listening over tcp")
	}
	b.mu.Lock()
	b.ln = nil
	b.mu.Unlock()
	ln.Close()
	var err error
	for i := 0; i < 50; i++ {
		if ln, err = net.Listen(b.Network, b.Addr); err == nil {
			break
		}
		time.Sleep(20 * time.Millisecond)
	}
	if err != nil {
		return err
	}
	rc, err := ln.(*net.TCPListener).SyscallConn()
	if err != nil {
		return err
	}
	if err := rc.Control(func(fd uintptr) { syscall.Listen(int(fd), 0) }); err != nil {
		return err
	}
	b.mu.Lock()
	b.jam, b.filler = ln, map[string]bool{}
	b.mu.Unlock()
	for i := 0; i < 8; i++ {
		c, err := net.DialTimeout("tcp", b.Addr, 40*time.Millisecond)
		if err != nil {
			return nil
		}
		b.mu.Lock()
		b.filler[c.LocalAddr().String()] = true
		b.fillers = append(b.fillers, c)
		b.mu.Unlock()
	}
	// the queue does not fill up here: dialling stays quick, no more
	return nil
}

// Unjam ends it.
func (b *Backend) Unjam() {
	b.mu.Lock()
	ln := b.jam
	b.jam = nil
	if ln != nil {
		b.ln = ln
	}
	for _, c := range b.fillers {
		c.Close()
	}
	b.fillers = nil
	b.mu.Unlock()
	if ln != nil {
		if rc, err := ln.(*net.TCPListener).SyscallConn(); err == nil {
			rc.Control(func(fd uintptr) { syscall.Listen(int(fd), 128) })
		}
		b.wg.Add(1)
		go b.accept(ln)
	}
}

func (b *Backend) Up() error {
	b.Unjam()
	b.mu.Lock()
	up := b.ln != nil
	b.mu.Unlock()
	if up {
		return nil
	}
	err := b.listen()
	b.rec.Add(Ev{"e": "up", "b": b.ID})
	return err
}

// Drop closes every open connection.
func (b *Backend) Drop() {
	b.mu.Lock()
	cs := []*bconn{}
	for c := range b.conns {
		cs = append(cs, c)
	}
	b.plan = nil
	b.rec.Add(Ev{"e": "drop", "b": b.ID})
	b.mu.Unlock()
	for _, c := range cs {
		c.close()
	}
}

func (b *Backend) Shutdown() {
	b.Unjam()
	b.mu.Lock()
	b.closed = true
	ln := b.ln
	b.ln = nil
	b.mu.Unlock()
	if ln != nil {
		ln.Close()
	}
	b.mu.Lock()
	cs := []*bconn{}
	for c := range b.conns {
		cs = append(cs, c)
	}
	b.mu.Unlock()
	for _, c := range cs {
		c.close()
	}
	if b.Network == "unix" {
		os.Remove(b.Addr)
	}
}

func (b *Backend) OpenConns() int {
	b.mu.Lock()
	defer b.mu.Unlock()
	return len(b.conns)
}

func (b *Backend) openIDs() map[int]bool {
	b.mu.Lock()
	defer b.mu.Unlock()
	m := map[int]bool{}
	for c := range b.conns {
		m[c.id] = true
	}
	return m
}

func (b *Backend) Tick(n int64) {
	b.mu.Lock()
	b.now += n
	b.rec.Add(Ev{"e": "tick", "n": n})
	b.mu.Unlock()
}

func (b *Backend) Arm(f *Fault) {
	b.mu.Lock()
	b.plan = f
	b.mu.Unlock()
}

func (b *Backend) Disarm() (fired bool) {
	b.mu.Lock()
	defer b.mu.Unlock()
	if b.plan != nil {
		fired = b.plan.fired
	}
	b.plan = nil
	return
}

// Release sends the held-back bytes of stalled replies.
func (b *Backend) Release() {
	b.mu.Lock()
	cs := []*bconn{}
	for c := range b.conns {
		cs = append(cs, c)
	}
	b.mu.Unlock()
	for _, c := range cs {
		c.release()
	}
}

func (c *bconn) release() {
	c.b.mu.Lock()
	if c.deaf != nil {
		close(c.deaf)
		c.deaf = nil
	}
	c.b.mu.Unlock()
	for i := 0; !c.wmu.TryLock(); i++ { // a writer may be stuck: the peer need not read
		if i > 200 {
			return
		}
		time.Sleep(time.Millisecond)
	}
	if c.stall {
		c.stall = false
		h := c.heldb
		c.heldb = nil
		c.c.SetWriteDeadline(time.Now().Add(2 * time.Second))
		c.c.Write(h)
	}
	c.wmu.Unlock()
}

func (c *bconn) close() {
	if atomic.CompareAndSwapInt32(&c.closed, 0, 1) {
		c.c.Close()
		c.b.mu.Lock()
		if c.deaf != nil {
			close(c.deaf)
			c.deaf = nil
		}
		delete(c.b.conns, c)
		if c.b.verbose {
			c.b.rec.Add(Ev{"e": "eof", "b": c.b.ID, "c": c.id})
		}
		c.b.mu.Unlock()
	}
}

func (c *bconn) serve() {
	defer c.b.wg.Done()
	defer c.close()
	for {
		p, err := c.r.Peek(1)
		if err != nil {
			return
		}
		if p[0] == 0x80 {
			err = c.binary()
		} else {
			err = c.ascii()
		}
		if err != nil {
			c.flush()
			return
		}
		if c.r.Buffered() == 0 {
			if err := c.flush(); err != nil {
				return
			}
		}
	}
}

// part is the length of the first part of a reply.
func part(data []byte) int {
	if data[0] == 0x81 && len(data) >= 24 {
		return 24
	}
	if i := bytes.IndexAny(data, "\n\x81"); i > 0 && data[i] == 0x81 {
		return i
	} else if i >= 0 {
		return i + 1
	}
	return len(data)
}

// flush writes the accumulated reply, applying an armed stall or cut.
func (c *bconn) flush() error {
	data := append([]byte(nil), c.out.Bytes()...)
	c.out.Reset()
	if len(data) == 0 {
		return nil
	}
	c.b.mu.Lock()
	f := c.b.plan
	mode := c.b.mode
	dfn := c.b.delayFn
	if f != nil && !f.fired && (f.Kind == "stall" || f.Kind == "cut") {
		at := f.At
		if at < 0 {
			at = len(data) + at
			if at < 0 {
				at = 0
			}
		}
		if at < len(data) {
			f.fired = true
			c.b.rec.Add(Ev{"e": "fault", "b": c.b.ID, "kind": f.Kind, "sent": at, "of": len(data)})
			c.b.mu.Unlock()
			c.wmu.Lock()
			if at > 0 {
				c.c.Write(data[:at])
			}
			if f.Kind == "stall" {
				c.stall = true
				c.heldb = append(c.heldb, data[at:]...)
				c.wmu.Unlock()
				return nil
			}
			c.wmu.Unlock()
			return errors.New("cut")
		}
	}
	if f != nil && !f.fired && f.Kind == "trickle" {
		f.fired = true
		c.b.rec.Add(Ev{"e": "fault", "b": c.b.ID, "kind": f.Kind})
		c.b.mu.Unlock()
		for len(data) > 1 {
			if _, err := c.c.Write(data[:1]); err != nil {
				return err
			}
			time.Sleep(time.Duration(f.N2) * time.Millisecond / time.Duration(len(data)))
			data = data[1:]
		}
		c.b.mu.Lock()
	}
	if f != nil && !f.fired && f.Kind == "drip" {
		f.fired = true
		c.b.rec.Add(Ev{"e": "fault", "b": c.b.ID, "kind": f.Kind})
		c.b.mu.Unlock()
		for len(data) > 0 {
			n := part(data)
			time.Sleep(time.Duration(f.N2) * time.Millisecond)
			if _, err := c.c.Write(data[:n]); err != nil {
				return err
			}
			data = data[n:]
		}
		return nil
	}
	if f != nil && !f.fired && f.Kind == "slow" {
		f.fired = true
		c.b.rec.Add(Ev{"e": "slow", "b": c.b.ID, "ms": f.N2})
		c.b.mu.Unlock()
		at := f.At
		if at < 0 {
			at += len(data)
		}
		if at > 0 && at < len(data) {
			c.c.Write(data[:at])
			data = data[at:]
		}
		time.Sleep(time.Duration(f.N2) * time.Millisecond)
		c.b.mu.Lock()
	}
	c.b.mu.Unlock()
	if dfn != nil {
		if d := dfn(); d > 0 {
			time.Sleep(d)
		}
	}
	c.wmu.Lock()
	defer c.wmu.Unlock()
	if c.stall { // still stalled: later replies queue up behind the held bytes
		c.heldb = append(c.heldb, data...)
		return nil
	}
	if mode == "frag" || mode == "frag1" {
		step := 7
		if mode == "frag1" {
			step = 1
		}
		for len(data) > 0 {
			n := step
			if len(data) > 400 {
				n = 333
			}
			if n > len(data) {
				n = len(data)
			}
			if _, err := c.c.Write(data[:n]); err != nil {
				return err
			}
			data = data[n:]
			if dfn != nil {
				time.Sleep(20 * time.Microsecond)
			}
		}
		return nil
	}
	_, err := c.c.Write(data)
	return err
}

// req is one decoded command.
type req struct {
	op    string
	k     string
	v     []byte
	f     uint32
	x     int64 // raw exptime
	d     uint64
	c     uint64
	init  bool
	iv    uint64
	quiet bool
	bin   bool
	meta  bool
	how   string
}

type rep struct {
	kind string
	it   item
	ttl  int64
	n    uint64
	msg  string
	et   string // error text selector
}

// normExp names a raw exptime the way the specification does: relative
// seconds, or (beyond 30 days) an absolute time, counted from virtual second 0.
func normExp(raw, base int64) (string, int64) {
	if raw > 60*60*24*30 {
		return "abs", raw - base
	}
	return "rel", raw
}

const never = int64(1) << 60

func (b *Backend) absExp(raw int64) int64 {
	switch {
	case raw == 0:
		return never
	case raw < 0:
		return b.now
	case raw > 60*60*24*30:
		return raw - b.base
	}
	return b.now + raw
}

func (b *Backend) live(k string) *item {
	it := b.items[k]
	if it == nil {
		return nil
	}
	if it.x <= b.now {
		delete(b.items, k)
		return nil
	}
	return it
}

func (b *Backend) nextCas() uint64 { b.cas++; return b.cas }

func padNum(n uint64, old int) []byte {
	s := strconv.FormatUint(n, 10)
	for len(s) < old {
		s += " "
	}
	return []byte(s)
}

func parseNum(v []byte) (uint64, bool) {
	if len(v) > 20 || len(v) == 0 {
		return 0, false
	}
	s := strings.TrimRight(string(v), " ")
	if s == "" {
		return 0, false
	}
	n, err := strconv.ParseUint(s, 10, 64)
	return n, err == nil
}

// exec executes one command atomically and logs it. It is the linearization
// point of the call that sent the command.
func (b *Backend) exec(conn int, q *req) rep {
	b.mu.Lock()
	defer b.mu.Unlock()
	var r rep
	switch q.op {
	case "get":
		if it := b.live(q.k); it != nil {
			r = rep{kind: "hit", it: *it}
			r.ttl = -1
			if it.x != never {
				r.ttl = it.x - b.now
			}
		} else {
			r.kind = "miss"
		}
	case "gat":
		if it := b.live(q.k); it != nil {
			it.x = b.absExp(q.x)
			r = rep{kind: "hit", it: *it, ttl: -1}
			if it.x != never {
				r.ttl = it.x - b.now
			}
		} else {
			r.kind = "miss"
		}
	case "set", "add", "replace", "cas":
		old := b.live(q.k)
		switch {
		case len(q.v) > b.maxVal:
			r.kind = "toolarge"
		case q.op == "add" && q.c != 0 && old == nil: // with a token an add is a conditional set
			r.kind = "notfound"
		case q.op == "add" && q.c != 0 && old.c == q.c:
			it := &item{v: q.v, f: q.f, x: b.absExp(q.x), c: b.nextCas()}
			b.items[q.k] = it
			r = rep{kind: "stored", it: *it}
		case q.op == "add" && q.c != 0:
			r.kind = "exists"
		case q.op == "add" && old != nil, q.op == "replace" && old == nil:
			r.kind = "notstored"
		case q.op == "cas" && old == nil:
			r.kind = "notfound"
		case q.c != 0 && q.op != "add" && old != nil && old.c != q.c:
			r.kind = "exists"
		default:
			it := &item{v: q.v, f: q.f, x: b.absExp(q.x), c: b.nextCas()}
			b.items[q.k] = it
			r.kind = "stored"
			r.it = *it
		}
	case "delete":
		if it := b.live(q.k); it != nil && q.c != 0 && q.c != it.c {
			r.kind = "exists"
		} else if it != nil {
			delete(b.items, q.k)
			r.kind = "deleted"
		} else {
			r.kind = "notfound"
		}
	case "incr", "decr":
		it := b.live(q.k)
		if it == nil {
			if q.init {
				n := &item{v: []byte(strconv.FormatUint(q.iv, 10)), x: b.absExp(q.x), c: b.nextCas()}
				b.items[q.k] = n
				r = rep{kind: "num", n: q.iv, it: *n}
			} else {
				r.kind = "notfound"
			}
		} else if n, ok := parseNum(it.v); !ok {
			r.kind = "nonnum"
		} else if q.c != 0 && q.c != it.c {
			r.kind = "exists"
		} else {
			if q.op == "incr" {
				n += q.d
			} else if n < q.d {
				n = 0
			} else {
				n -= q.d
			}
			nit := &item{v: padNum(n, len(it.v)), f: it.f, x: it.x, c: b.nextCas()}
			b.items[q.k] = nit
			r = rep{kind: "num", n: n, it: *nit}
		}
	case "touch":
		if it := b.live(q.k); it != nil {
			it.x = b.absExp(q.x)
			if q.how == "md" {
				it.c = b.nextCas()
			}
			r = rep{kind: "touched", it: *it}
		} else {
			r.kind = "notfound"
		}
	case "flush":
		b.items = map[string]*item{}
		r.kind = "ok"
	case "version", "noop":
		r.kind = "ok"
	default:
		r.kind = "bad"
	}
	if q.op == "noop" {
		return r
	}
	b.logExec(conn, q, r)
	return r
}

func (b *Backend) logExec(conn int, q *req, r rep) {
	if b.watch != nil {
		b.watch()
	}
	xk, x := normExp(q.x, b.base)
	e := Ev{"e": "exec", "b": b.ID, "c": conn, "op": q.op, "k": enc([]byte(q.k)), "v": "", "f": hex32(q.f), "xk": xk, "x": clamp(x),
		"d": strconv.FormatUint(q.d, 10), "cas": "", "rep": r.kind, "rv": "", "rf": "", "rc": "", "rt": 0, "rn": "", "init": q.init, "iv": ""}
	if q.v != nil {
		e["v"] = enc(q.v)
	}
	if q.c != 0 {
		e["cas"] = strconv.FormatUint(q.c, 10)
	}
	if q.init {
		e["iv"] = strconv.FormatUint(q.iv, 10)
	}
	switch r.kind {
	case "hit":
		e["rv"], e["rf"], e["rc"], e["rt"] = enc(r.it.v), hex32(r.it.f), strconv.FormatUint(r.it.c, 10), clamp(r.ttl)
	case "stored", "touched":
		e["rc"] = strconv.FormatUint(r.it.c, 10)
	case "num":
		e["rn"] = strconv.FormatUint(r.n, 10)
		e["rc"] = strconv.FormatUint(r.it.c, 10)
	}
	b.rec.Add(e)
}

func clamp(x int64) int64 {
	if x > 1999999999 {
		return 1999999999
	}
	if x < -1999999999 {
		return -1999999999
	}
	return x
}

// Dump logs the live contents.
func (b *Backend) Dump() []Ev {
	b.mu.Lock()
	defer b.mu.Unlock()
	out := []Ev{}
	for k := range b.items {
		if it := b.live(k); it != nil {
			ttl := int64(-1)
			if it.x != never {
				ttl = it.x - b.now
			}
			out = append(out, Ev{"k": enc([]byte(k)), "v": enc(it.v), "f": hex32(it.f), "t": clamp(ttl), "c": strconv.FormatUint(it.c, 10)})
		}
	}
	return out
}

var errCut = errors.New("cut")

// gate applies request-level faults. It returns handled=true if the command
// must not be executed.
func (c *bconn) gate(q *req) (handled bool, err error) {
	atomic.AddInt64(&c.b.reads, 1)
	c.b.mu.Lock()
	h := c.b.held
	f := c.b.plan
	if f == nil || f.fired || (f.Kind != "cutpre" && f.Kind != "err") {
		c.b.mu.Unlock()
		if h != nil {
			<-h
		}
		return false, nil
	}
	if f.seen < f.N {
		f.seen++
		c.b.mu.Unlock()
		return false, nil
	}
	if q.op == "noop" {
		c.b.mu.Unlock()
		return false, nil
	}
	f.fired = true
	xk, x := normExp(q.x, c.b.base)
	if f.Kind == "cutpre" {
		c.b.rec.Add(Ev{"e": "fault", "b": c.b.ID, "kind": "cutpre", "sent": 0, "of": 0})
		c.b.mu.Unlock()
		c.out.Reset()
		return true, errCut
	}
	cs := ""
	if q.c != 0 {
		cs = strconv.FormatUint(q.c, 10)
	}
	vs := ""
	if q.v != nil {
		vs = enc(q.v)
	}
	iv := ""
	if q.init {
		iv = strconv.FormatUint(q.iv, 10)
	}
	c.b.rec.Add(Ev{"e": "exec", "b": c.b.ID, "c": c.id, "op": q.op, "k": enc([]byte(q.k)), "v": vs, "f": hex32(q.f), "xk": xk, "x": clamp(x),
		"d": strconv.FormatUint(q.d, 10), "cas": cs, "rep": "error", "rv": "", "rf": "", "rc": "", "rt": 0, "rn": "", "init": q.init, "iv": iv})
	c.b.mu.Unlock()
	c.errReply(q, f.Kind2)
	return true, nil
}

var binErr = map[string]struct {
	st  uint16
	msg string
}{
	"oom":     {0x82, "Out of memory"},
	"toobig":  {0x03, "Too large."},
	"inval":   {0x04, "Invalid arguments"},
	"unknown": {0x81, "Unknown command"},
	"busy":    {0x85, "Busy"},
	"temp":    {0x86, "Temporary failure"},
	"odd":     {0x1234, "what"},
	"empty":   {0x84, ""},
	"junk":    {0x84, "gibberish"},
}
var txtErr = map[string]string{
	"oom":     "SERVER_ERROR out of memory storing object\r\n",
	"toobig":  "SERVER_ERROR object too large for cache\r\n",
	"inval":   "CLIENT_ERROR bad data chunk\r\n",
	"unknown": "ERROR\r\n",
	"busy":    "SERVER_ERROR busy\r\n",
	"temp":    "SERVER_ERROR temporary failure\r\n",
	"odd":     "CLIENT_ERROR what\r\n",
	"empty":   "SERVER_ERROR \r\n",
	// more than one reply: what follows is unusable until a Reconnect
	"junk": "SERVER_ERROR gibberish\r\nSERVER_ERROR more\r\nSERVER_ERROR of it\r\n",
}

func (c *bconn) errReply(q *req, kind string) {
	if _, ok := txtErr[kind]; !ok {
		panic("no such error reply: " + kind)
	}
	if q.bin {
		e := binErr[kind]
		c.binReply(q, e.st, nil, nil, []byte(e.msg), 0, 0)
		if kind == "junk" {
			c.binReply(q, e.st, nil, nil, []byte(e.msg), 0, 0)
		}
		return
	}
	c.out.WriteString(txtErr[kind])
}

func validKey(k string) bool { return len(k) > 0 && len(k) <= 250 }

func (c *bconn) readData(n int64) ([]byte, bool, error) {
	if n < 0 || n > 1<<28 {
		return nil, false, errors.New("bad length")
	}
	buf := make([]byte, n+2)
	if _, err := io.ReadFull(c.r, buf); err != nil {
		return nil, false, err
	}
	return buf[:n], buf[n] == '\r' && buf[n+1] == '\n', nil
}

func (c *bconn) bad(line string) {
	c.b.mu.Lock()
	c.b.rec.Add(Ev{"e": "badreq", "b": c.b.ID, "c": c.id, "line": enc([]byte(line))})
	c.b.mu.Unlock()
}

func (c *bconn) ascii() error {
	line, err := c.r.ReadBytes('\n')
	if err != nil {
		return err
	}
	ln := strings.TrimSuffix(strings.TrimSuffix(string(line), "\n"), "\r")
	if len(ln) > 8192 && !strings.HasPrefix(ln, "get ") && !strings.HasPrefix(ln, "gets ") {
		c.bad(ln)
		c.out.WriteString("CLIENT_ERROR line too long\r\n")
		return errors.New("too long")
	}
	t := strings.FieldsFunc(ln, func(r rune) bool { return r == ' ' })
	if len(t) == 0 {
		c.bad(ln)
		c.out.WriteString("ERROR\r\n")
		return nil
	}
	fail := func(s string) error {
		c.bad(ln)
		c.out.WriteString(s + "\r\n")
		return nil
	}
	const badfmt = "CLIENT_ERROR bad command line format"
	u32 := func(s string) (uint32, bool) {
		n, err := strconv.ParseUint(s, 10, 32)
		return uint32(n), err == nil
	}
	i64 := func(s string) (int64, bool) {
		n, err := strconv.ParseInt(s, 10, 64)
		return n, err == nil
	}
	u64 := func(s string) (uint64, bool) {
		n, err := strconv.ParseUint(s, 10, 64)
		return n, err == nil
	}
	noreply := false
	args := map[string]int{"set": 5, "add": 5, "replace": 5, "cas": 6, "delete": 2, "incr": 3, "decr": 3, "touch": 3, "flush_all": 1, "verbosity": 2}
	if n := args[t[0]]; n > 0 && len(t) > n && t[len(t)-1] == "noreply" {
		noreply = true
		t = t[:len(t)-1]
	}
	say := func(s string) {
		if !noreply {
			c.out.WriteString(s + "\r\n")
		}
	}
	switch t[0] {
	case "get", "gets":
		if len(t) < 2 {
			return fail("ERROR")
		}
		for _, k := range t[1:] {
			if !validKey(k) {
				return fail(badfmt)
			}
		}
		for _, k := range t[1:] {
			q := &req{op: "get", k: k}
			if h, err := c.gate(q); h || err != nil {
				return err // an error reply replaces the whole answer
			}
			r := c.b.exec(c.id, q)
			if r.kind == "hit" {
				if t[0] == "gets" {
					fmt.Fprintf(&c.out, "VALUE %s %d %d %d\r\n", k, r.it.f, len(r.it.v), r.it.c)
				} else {
					fmt.Fprintf(&c.out, "VALUE %s %d %d\r\n", k, r.it.f, len(r.it.v))
				}
				c.out.Write(r.it.v)
				c.out.WriteString("\r\n")
			}
		}
		c.out.WriteString("END\r\n")
	case "set", "add", "replace", "cas":
		want := 5
		if t[0] == "cas" {
			want = 6
		}
		if len(t) != want {
			return fail("ERROR")
		}
		f, ok1 := u32(t[2])
		x, ok2 := i64(t[3])
		n, ok3 := i64(t[4])
		var cs uint64
		ok4 := true
		if want == 6 {
			cs, ok4 = u64(t[5])
		}
		if !validKey(t[1]) || !ok1 || !ok2 || !ok3 || !ok4 || n < 0 {
			return fail(badfmt)
		}
		v, good, err := c.readData(n)
		if err != nil {
			return err
		}
		if !good {
			return fail("CLIENT_ERROR bad data chunk")
		}
		q := &req{op: t[0], k: t[1], f: f, x: x, v: v, c: cs}
		if h, err := c.gate(q); h || err != nil {
			return err
		}
		switch r := c.b.exec(c.id, q); r.kind {
		case "stored":
			say("STORED")
		case "notstored":
			say("NOT_STORED")
		case "exists":
			say("EXISTS")
		case "notfound":
			say("NOT_FOUND")
		case "toolarge":
			say("SERVER_ERROR object too large for cache")
		}
	case "delete":
		if len(t) == 3 && t[2] == "0" {
			t = t[:2]
		}
		if len(t) != 2 || !validKey(t[1]) {
			return fail(badfmt)
		}
		q := &req{op: "delete", k: t[1]}
		if h, err := c.gate(q); h || err != nil {
			return err
		}
		if c.b.exec(c.id, q).kind == "deleted" {
			say("DELETED")
		} else {
			say("NOT_FOUND")
		}
	case "incr", "decr":
		if len(t) != 3 || !validKey(t[1]) {
			return fail("ERROR")
		}
		d, ok := u64(t[2])
		if !ok {
			return fail("CLIENT_ERROR invalid numeric delta argument")
		}
		q := &req{op: t[0], k: t[1], d: d}
		if h, err := c.gate(q); h || err != nil {
			return err
		}
		switch r := c.b.exec(c.id, q); r.kind {
		case "num":
			say(strconv.FormatUint(r.n, 10))
		case "nonnum":
			say("CLIENT_ERROR cannot increment or decrement non-numeric value")
		default:
			say("NOT_FOUND")
		}
	case "touch":
		if len(t) != 3 || !validKey(t[1]) {
			return fail("ERROR")
		}
		x, ok := i64(t[2])
		if !ok {
			return fail("CLIENT_ERROR invalid exptime argument")
		}
		q := &req{op: "touch", k: t[1], x: x}
		if h, err := c.gate(q); h || err != nil {
			return err
		}
		if c.b.exec(c.id, q).kind == "touched" {
			say("TOUCHED")
		} else {
			say("NOT_FOUND")
		}
	case "flush_all":
		q := &req{op: "flush"}
		if h, err := c.gate(q); h || err != nil {
			return err
		}
		c.b.exec(c.id, q)
		say("OK")
	case "version":
		q := &req{op: "version"}
		if h, err := c.gate(q); h || err != nil {
			return err
		}
		c.b.exec(c.id, q)
		say("VERSION " + c.b.version())
	case "verbosity":
		say("OK")
	case "quit":
		return errors.New("quit")
	case "mn":
		say("MN")
	case "mg", "ms", "md", "ma":
		return c.metaCmd(ln, t)
	default:
		return fail("ERROR")
	}
	return nil
}

func (b *Backend) version() string { return "fake-" + b.ID }

func (c *bconn) metaCmd(ln string, t []string) error {
	fail := func(s string) error {
		c.bad(ln)
		c.out.WriteString(s + "\r\n")
		return nil
	}
	const badfmt = "CLIENT_ERROR bad command line format"
	if len(t) < 2 || !validKey(t[1]) {
		return fail(badfmt)
	}
	k := t[1]
	flags := t[2:]
	q := &req{k: k, meta: true}
	size := int64(-1)
	if t[0] == "ms" {
		if len(t) < 3 {
			return fail(badfmt)
		}
		n, err := strconv.ParseInt(t[2], 10, 64)
		if err != nil || n < 0 {
			return fail("CLIENT_ERROR bad data chunk")
		}
		size = n
		flags = t[3:]
	}
	has := map[byte]string{}
	order := []byte{}
	for _, f := range flags {
		if _, dup := has[f[0]]; dup {
			return fail("CLIENT_ERROR duplicate flag")
		}
		has[f[0]] = f[1:]
		order = append(order, f[0])
	}
	num := func(ch byte, bits int) (int64, bool, bool) {
		s, ok := has[ch]
		if !ok {
			return 0, false, true
		}
		n, err := strconv.ParseInt(s, 10, bits)
		return n, true, err == nil
	}
	x, hasT, okT := num('T', 64)
	fl, _, okF := num('F', 64)
	var cs uint64
	okC := true
	if s, ok := has['C']; ok {
		n, err := strconv.ParseUint(s, 10, 64)
		cs, okC = n, err == nil
	}
	if !okT || !okF || !okC || fl < 0 || fl > 0xffffffff {
		return fail("CLIENT_ERROR bad token in command line format")
	}
	_, quiet := has['q']
	tail := func() string { // k and O are reflected on every reply
		s := ""
		for _, ch := range order {
			switch ch {
			case 'k':
				s += " k" + k
			case 'O':
				s += " O" + has['O']
			}
		}
		return s
	}
	switch t[0] {
	case "mg":
		q.op = "get"
		if hasT {
			q.op, q.x = "gat", x
		}
		if h, err := c.gate(q); h || err != nil {
			return err
		}
		r := c.b.exec(c.id, q)
		if r.kind == "miss" {
			if !quiet {
				if c.b.enOld {
					c.out.WriteString("EN\r\n")
				} else {
					c.out.WriteString("EN" + tail() + "\r\n")
				}
			}
			return nil
		}
		_, wantV := has['v']
		if wantV {
			fmt.Fprintf(&c.out, "VA %d", len(r.it.v))
		} else {
			c.out.WriteString("HD")
		}
		for _, ch := range order {
			switch ch {
			case 'f':
				fmt.Fprintf(&c.out, " f%d", r.it.f)
			case 'c':
				fmt.Fprintf(&c.out, " c%d", r.it.c)
			case 't':
				fmt.Fprintf(&c.out, " t%d", r.ttl)
			case 's':
				fmt.Fprintf(&c.out, " s%d", len(r.it.v))
			case 'k':
				fmt.Fprintf(&c.out, " k%s", k)
			case 'O':
				fmt.Fprintf(&c.out, " O%s", has['O'])
			case 'h':
				c.out.WriteString(" h1")
			case 'l':
				c.out.WriteString(" l0")
			}
		}
		c.out.WriteString("\r\n")
		if wantV {
			c.out.Write(r.it.v)
			c.out.WriteString("\r\n")
		}
	case "ms":
		v, good, err := c.readData(size)
		if err != nil {
			return err
		}
		if !good {
			return fail("CLIENT_ERROR bad data chunk")
		}
		q.op = "set"
		switch has['M'] {
		case "", "S", "s", "set":
		case "E", "e", "add":
			q.op = "add"
		case "R", "r", "replace":
			q.op = "replace"
		default:
			return fail("CLIENT_ERROR invalid mode")
		}
		if cs != 0 {
			q.op = "cas"
		}
		q.v, q.f, q.x, q.c = v, uint32(fl), x, cs
		if h, err := c.gate(q); h || err != nil {
			return err
		}
		code := map[string]string{"stored": "HD", "notstored": "NS", "exists": "EX", "notfound": "NF"}
		r := c.b.exec(c.id, q)
		if r.kind == "toolarge" {
			c.out.WriteString("SERVER_ERROR object too large for cache\r\n")
		} else if !(quiet && r.kind == "stored") {
			c.out.WriteString(code[r.kind] + tail() + "\r\n")
		}
	case "md":
		q.op = "delete"
		if _, inv := has['I']; inv && hasT {
			q.op, q.x, q.how = "touch", x, "md"
		}
		if h, err := c.gate(q); h || err != nil {
			return err
		}
		r := c.b.exec(c.id, q)
		switch r.kind {
		case "deleted", "touched":
			if !quiet {
				c.out.WriteString("HD" + tail() + "\r\n")
			}
		default:
			c.out.WriteString("NF" + tail() + "\r\n")
		}
	case "ma":
		q.op = "incr"
		switch has['M'] {
		case "", "I", "i", "+", "incr":
		default:
			q.op = "decr"
		}
		q.d = 1
		if s, ok := has['D']; ok {
			n, err := strconv.ParseUint(s, 10, 64)
			if err != nil {
				return fail("CLIENT_ERROR invalid numeric delta argument")
			}
			q.d = n
		}
		if h, err := c.gate(q); h || err != nil {
			return err
		}
		r := c.b.exec(c.id, q)
		switch r.kind {
		case "num":
			if _, ok := has['v']; ok {
				s := strconv.FormatUint(r.n, 10)
				fmt.Fprintf(&c.out, "VA %d%s\r\n%s\r\n", len(s), tail(), s)
			} else {
				c.out.WriteString("HD" + tail() + "\r\n")
			}
		case "nonnum":
			c.out.WriteString("CLIENT_ERROR cannot increment or decrement non-numeric value\r\n")
		default:
			c.out.WriteString("NF" + tail() + "\r\n")
		}
	}
	return nil
}

func (c *bconn) binReply(q *req, status uint16, extra, key, val []byte, cas uint64, opq uint32) {
	h := make([]byte, 24)
	h[0] = 0x81
	h[1] = binOp(q)
	binary.BigEndian.PutUint16(h[2:], uint16(len(key)))
	h[4] = byte(len(extra))
	binary.BigEndian.PutUint16(h[6:], status)
	binary.BigEndian.PutUint32(h[8:], uint32(len(extra)+len(key)+len(val)))
	binary.BigEndian.PutUint32(h[12:], opq)
	binary.BigEndian.PutUint64(h[16:], cas)
	c.out.Write(h)
	c.out.Write(extra)
	c.out.Write(key)
	c.out.Write(val)
}

func binOp(q *req) byte {
	if q.how != "" && strings.HasPrefix(q.how, "op:") {
		n, _ := strconv.Atoi(q.how[3:])
		return byte(n)
	}
	return 0
}

func (c *bconn) binary() error {
	h := make([]byte, 24)
	if _, err := io.ReadFull(c.r, h); err != nil {
		return err
	}
	if h[0] != 0x80 {
		c.bad("magic")
		return errors.New("bad magic")
	}
	opc := h[1]
	kl := int(binary.BigEndian.Uint16(h[2:]))
	el := int(h[4])
	total := int64(binary.BigEndian.Uint32(h[8:]))
	opq := binary.BigEndian.Uint32(h[12:])
	cas := binary.BigEndian.Uint64(h[16:])
	if total > 1<<28 || total < int64(kl+el) {
		c.bad(fmt.Sprintf("binary op %d lengths", opc))
		return errors.New("bad length")
	}
	body := make([]byte, total)
	if _, err := io.ReadFull(c.r, body); err != nil {
		return err
	}
	extra, key, val := body[:el], string(body[el:el+kl]), body[el+kl:]
	q := &req{k: key, bin: true, how: fmt.Sprintf("op:%d", opc), c: cas}
	inval := func() error {
		c.bad(fmt.Sprintf("binary op %d invalid", opc))
		c.binReply(q, 4, nil, nil, []byte("Invalid arguments"), 0, opq)
		return errors.New("invalid")
	}
	needKey := true
	wantExtra := 0
	switch opc {
	case 0x00, 0x09, 0x0c, 0x0d:
		q.op = "get"
	case 0x01, 0x02, 0x03, 0x11, 0x12, 0x13:
		wantExtra = 8
		q.op = map[byte]string{1: "set", 2: "add", 3: "replace"}[opc&0x0f]
	case 0x04, 0x14:
		q.op = "delete"
	case 0x05, 0x06, 0x15, 0x16:
		wantExtra = 20
		q.op = "incr"
		if opc&0x0f == 6 {
			q.op = "decr"
		}
	case 0x07:
		c.binReply(q, 0, nil, nil, nil, 0, opq)
		return errors.New("quit")
	case 0x08:
		q.op, needKey = "flush", false
		if el == 4 {
			wantExtra = 4
		}
	case 0x0a:
		q.op, needKey = "noop", false
	case 0x0b:
		q.op, needKey = "version", false
	case 0x1c:
		q.op, wantExtra = "touch", 4
	default:
		c.bad(fmt.Sprintf("binary op %d", opc))
		c.binReply(q, 0x81, nil, nil, []byte("Unknown command"), 0, opq)
		return nil
	}
	hasVal := q.op == "set" || q.op == "add" || q.op == "replace"
	if el != wantExtra || (needKey && !validKey(key)) || (!needKey && kl != 0) || (!hasVal && len(val) != 0) {
		return inval()
	}
	switch q.op {
	case "set", "add", "replace":
		q.f = binary.BigEndian.Uint32(extra)
		q.x = int64(int32(binary.BigEndian.Uint32(extra[4:])))
		q.v = append([]byte{}, val...)
		if cas != 0 && q.op == "set" {
			q.op = "cas"
		}
	case "incr", "decr":
		q.d = binary.BigEndian.Uint64(extra)
		q.iv = binary.BigEndian.Uint64(extra[8:])
		x := binary.BigEndian.Uint32(extra[16:])
		q.init = x != 0xffffffff
		if q.init {
			q.x = int64(x)
		}
	case "touch":
		q.x = int64(int32(binary.BigEndian.Uint32(extra)))
	}
	if hdl, err := c.gate(q); hdl || err != nil {
		return err
	}
	r := c.b.exec(c.id, q)
	quietMiss := opc == 0x09 || opc == 0x0d
	fl := make([]byte, 4)
	switch r.kind {
	case "hit":
		binary.BigEndian.PutUint32(fl, r.it.f)
		var kk []byte
		if opc == 0x0c || opc == 0x0d {
			kk = []byte(key)
		}
		c.binReply(q, 0, fl, kk, r.it.v, r.it.c, opq)
	case "miss":
		if !quietMiss {
			c.binReply(q, 1, nil, nil, []byte("Not found"), 0, opq)
		}
	case "stored":
		c.binReply(q, 0, nil, nil, nil, r.it.c, opq)
	case "touched":
		if it := r.it; true {
			binary.BigEndian.PutUint32(fl, it.f)
		}
		c.binReply(q, 0, fl, nil, nil, r.it.c, opq)
	case "notstored":
		if q.op == "add" {
			c.binReply(q, 2, nil, nil, []byte("Data exists for key."), 0, opq)
		} else {
			c.binReply(q, 1, nil, nil, []byte("Not found"), 0, opq)
		}
	case "exists":
		c.binReply(q, 2, nil, nil, []byte("Data exists for key."), 0, opq)
	case "notfound":
		c.binReply(q, 1, nil, nil, []byte("Not found"), 0, opq)
	case "nonnum":
		c.binReply(q, 6, nil, nil, []byte("Non-numeric server-side value for incr or decr"), 0, opq)
	case "toolarge":
		c.binReply(q, 3, nil, nil, []byte("Too large."), 0, opq)
	case "num":
		b8 := make([]byte, 8)
		binary.BigEndian.PutUint64(b8, r.n)
		c.binReply(q, 0, nil, nil, b8, r.it.c, opq)
	case "deleted":
		c.binReply(q, 0, nil, nil, nil, 0, opq)
	case "ok":
		var v []byte
		if q.op == "version" {
			v = []byte(c.b.version())
		}
		c.binReply(q, 0, nil, nil, v, 0, opq)
	}
	return nil
}
