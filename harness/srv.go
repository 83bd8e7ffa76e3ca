package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand"
	"net"
	"os"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	merrors "go.f110.dev/go-memcached/errors"
	"go.f110.dev/go-memcached/server"
)

// The server package, driven by byte streams. A scenario has connections; each
// carries requests of one protocol, cut into segments in a given way. The
// connections are in memory: a Read of the server returns exactly one segment
// (some scenarios use sockets instead).

// SReq is one request of a scenario.
type SReq struct {
	Op   string   `json:"op"`
	Var  string   `json:"var,omitempty"` // form of the request, or of the damage (op "bad")
	Out  string   `json:"out"`           // what the handler makes of it
	Nk   int      `json:"nk,omitempty"`  // number of keys (get, gets)
	Outs []string `json:"outs,omitempty"`
	Cut  []int    `json:"cut,omitempty"` // part boundaries (from 1) behind which a segment ends
}

// SConn is one connection of a scenario.
type SConn struct {
	P    string `json:"p"` // text, bin
	Reqs []SReq `json:"reqs"`
	End  string `json:"end,omitempty"` // how the client leaves: eof, reset, trunc, stay
}

// link is the client's end of a connection.
type link interface {
	send([]byte)
	finish(reset bool)    // no more bytes will come
	settle(time.Duration) // waits until the server wants more bytes
	closed() bool         // did the server close the connection?
	output() []byte       // what the server has sent so far
	waitOutput(func([]byte) bool, time.Duration)
}

// memConn is the server's end of an in-memory connection.
type memConn struct {
	mu      sync.Mutex
	cond    *sync.Cond
	segs    [][]byte
	eof     bool
	reset   bool
	shut    bool
	waiting bool
	deaf    bool // the client does not take what the server writes
	out     bytes.Buffer
}

func newMemConn() *memConn {
	c := &memConn{}
	c.cond = sync.NewCond(&c.mu)
	return c
}

func (c *memConn) Read(p []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for len(c.segs) == 0 && !c.eof && !c.shut && !c.reset {
		c.waiting = true
		c.cond.Broadcast()
		c.cond.Wait()
	}
	c.waiting = false
	switch {
	case c.shut:
		return 0, net.ErrClosed
	case c.reset:
		return 0, errors.New("connection reset by peer")
	case len(c.segs) > 0:
		n := copy(p, c.segs[0])
		if n == len(c.segs[0]) {
			c.segs = c.segs[1:]
		} else {
			c.segs[0] = c.segs[0][n:]
		}
		return n, nil
	}
	return 0, io.EOF
}

func (c *memConn) Write(p []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for c.deaf && !c.shut && !c.reset {
		c.cond.Wait()
	}
	if c.shut {
		return 0, net.ErrClosed
	}
	if c.reset {
		return 0, errors.New("broken pipe")
	}
	c.out.Write(p)
	c.cond.Broadcast()
	return len(p), nil
}

func (c *memConn) Close() error {
	c.mu.Lock()
	c.shut = true
	c.cond.Broadcast()
	c.mu.Unlock()
	return nil
}

type memAddr struct{}

func (memAddr) Network() string { return "mem" }
func (memAddr) String() string  { return "mem" }

func (c *memConn) LocalAddr() net.Addr              { return memAddr{} }
func (c *memConn) RemoteAddr() net.Addr             { return memAddr{} }
func (c *memConn) SetDeadline(time.Time) error      { return nil }
func (c *memConn) SetReadDeadline(time.Time) error  { return nil }
func (c *memConn) SetWriteDeadline(time.Time) error { return nil }

func (c *memConn) send(b []byte) {
	c.mu.Lock()
	c.segs = append(c.segs, append([]byte(nil), b...))
	c.waiting = false
	c.cond.Broadcast()
	c.mu.Unlock()
}

func (c *memConn) finish(reset bool) {
	c.mu.Lock()
	c.eof = true
	c.reset = reset
	c.cond.Broadcast()
	c.mu.Unlock()
}

// wait waits until f holds (called with the lock held).
func (c *memConn) wait(f func() bool, d time.Duration) {
	end := time.Now().Add(d)
	t := time.AfterFunc(d+time.Millisecond, func() { c.mu.Lock(); c.cond.Broadcast(); c.mu.Unlock() })
	defer t.Stop()
	c.mu.Lock()
	for !f() && time.Now().Before(end) {
		c.cond.Wait()
	}
	c.mu.Unlock()
}

func (c *memConn) settle(d time.Duration) {
	c.wait(func() bool { return c.shut || (c.waiting && len(c.segs) == 0) }, d)
}
func (c *memConn) waitOutput(f func([]byte) bool, d time.Duration) {
	c.wait(func() bool { return c.shut || f(c.out.Bytes()) }, d)
}
func (c *memConn) closed() bool { c.mu.Lock(); defer c.mu.Unlock(); return c.shut }
func (c *memConn) output() []byte {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]byte(nil), c.out.Bytes()...)
}

// sockLink is a connection over a socket.
type sockLink struct {
	c    net.Conn
	mu   sync.Mutex
	cond *sync.Cond
	out  bytes.Buffer
	shut bool
}

func newSockLink(c net.Conn) *sockLink {
	l := &sockLink{c: c}
	l.cond = sync.NewCond(&l.mu)
	go func() {
		b := make([]byte, 4096)
		for {
			n, err := c.Read(b)
			l.mu.Lock()
			l.out.Write(b[:n])
			if err != nil {
				l.shut = true
			}
			l.cond.Broadcast()
			l.mu.Unlock()
			if err != nil {
				return
			}
		}
	}()
	return l
}
func (l *sockLink) send(b []byte) {
	l.c.SetWriteDeadline(time.Now().Add(5 * time.Second))
	l.c.Write(b)
}
func (l *sockLink) finish(reset bool) {
	if reset {
		l.c.Close()
		return
	}
	l.c.(interface{ CloseWrite() error }).CloseWrite()
}
func (l *sockLink) settle(time.Duration) { time.Sleep(300 * time.Microsecond) }
func (l *sockLink) closed() bool         { l.mu.Lock(); defer l.mu.Unlock(); return l.shut }
func (l *sockLink) output() []byte {
	l.mu.Lock()
	defer l.mu.Unlock()
	return append([]byte(nil), l.out.Bytes()...)
}
func (l *sockLink) waitOutput(f func([]byte) bool, d time.Duration) {
	end := time.Now().Add(d)
	t := time.AfterFunc(d+time.Millisecond, func() { l.mu.Lock(); l.cond.Broadcast(); l.mu.Unlock() })
	defer t.Stop()
	l.mu.Lock()
	for !l.shut && !f(l.out.Bytes()) && time.Now().Before(end) {
		l.cond.Wait()
	}
	l.mu.Unlock()
}

type tempErr struct{}

func (tempErr) Error() string   { return "accept: too many open files" }
func (tempErr) Temporary() bool { return true }
func (tempErr) Timeout() bool   { return false }

// memListener hands out in-memory connections.
type memListener struct {
	ch    chan net.Conn
	errs  int32 // temporary failures to report before the next connection
	once  sync.Once
	done  chan struct{}
	ended int32
}

func newMemListener() *memListener {
	return &memListener{ch: make(chan net.Conn, 8192), done: make(chan struct{})}
}
func (l *memListener) Accept() (net.Conn, error) {
	if atomic.AddInt32(&l.errs, -1) >= 0 {
		return nil, tempErr{}
	}
	atomic.StoreInt32(&l.errs, 0)
	select {
	case c := <-l.ch:
		return c, nil
	case <-l.done:
		return nil, net.ErrClosed
	}
}
func (l *memListener) Close() error   { l.once.Do(func() { close(l.done) }); return nil }
func (l *memListener) Addr() net.Addr { return memAddr{} }

// --- the handler

type plan struct {
	req  Ev // as sent, for the specification
	resp func() ([]*server.Response, error)
}

type srvWorld struct {
	sc    *Scenario
	rng   *rand.Rand
	rec   *Rec
	w     *world // for values
	plans [][]plan
	next  []int32
	who   map[string]int // connection of a keyless operation
	delay bool
	prog  chan struct{}
	block map[int]bool  // the handler does not return for these connections
	free  chan struct{} // until this is closed
	mu    sync.Mutex
	kept  []keptReq
}

// keptReq is a request the handler keeps.
type keptReq struct {
	r  *server.Request
	ev Ev
}

var opNames = map[server.Opcode]string{server.OpcodeGet: "get", server.OpcodeSet: "set", server.OpcodeAdd: "add", server.OpcodeReplace: "replace",
	server.OpcodeDelete: "delete", server.OpcodeIncrement: "incr", server.OpcodeDecrement: "decr", server.OpcodeTouch: "touch",
	server.OpcodeFlush: "flush", server.OpcodeVersion: "version", server.OpcodeNoop: "noop"}

// norm names the fields of a request the way the specification does.
func norm(r *server.Request) Ev {
	op := opNames[r.Opcode]
	if op == "" {
		op = fmt.Sprintf("op%d", r.Opcode)
	}
	ks := []string{}
	if r.Keys != nil {
		for _, k := range r.Keys {
			ks = append(ks, enc([]byte(k)))
		}
	} else if r.Key != "" {
		ks = append(ks, enc([]byte(r.Key)))
	}
	e := Ev{"op": op, "ks": ks, "v": enc(r.Value), "f": flagHex(r.Flags), "x": "0", "d": strconv.FormatUint(uint64(r.Delta), 10), "cas": "", "opt": "", "opq": "",
		"meta": false, "quiet": false}
	opt := ""
	if o := r.GetOpt; o != nil {
		for _, f := range []struct {
			b bool
			s string
		}{{o.Cas, "c"}, {o.Flag, "f"}, {o.Hit, "h"}, {o.Key, "k"}, {o.LastAccess, "l"}, {o.Size, "s"}, {o.TTL, "t"}, {o.Value, "v"}} {
			if f.b {
				opt += f.s
			}
		}
		if o.WithOpaque {
			e["opq"] = strconv.Itoa(o.Opaque)
		}
		e["quiet"] = o.NoReply
		e["meta"] = o.Meta
	}
	if o := r.SetOpt; o != nil {
		e["x"] = strconv.FormatInt(int64(o.Expiration), 10)
		if o.Cas {
			e["cas"] = strconv.FormatUint(o.CasValue, 10)
		}
		if o.Meta {
			e["f"] = hex32(uint32(o.Flag))
			e["meta"] = true
			if o.Opaque != 0 {
				e["opq"] = strconv.FormatInt(o.Opaque, 10)
			}
			if o.Invalidate {
				opt += "I"
			}
			if o.Key {
				opt += "k"
			}
			e["quiet"] = o.NoReply
			if o.Size != len(r.Value) {
				e["v"] = "size"
			}
		}
	} else if op == "touch" {
		e["x"] = strconv.FormatInt(r.Delta, 10)
		e["d"] = "0"
	}
	if o := r.DelOpt; o != nil {
		e["meta"] = o.Meta
	}
	e["opt"] = opt
	return e
}

func (s *srvWorld) ServeRequest(r *server.Request) ([]*server.Response, error) {
	if r.Key == "fresh" {
		return []*server.Response{{Error: merrors.ItemNotFound}}, nil
	}
	e := norm(r)
	c := -1
	key := r.Key
	if key == "" && len(r.Keys) > 0 {
		key = r.Keys[0]
	}
	if strings.HasPrefix(key, "c") {
		if i := strings.IndexByte(key, '.'); i > 0 {
			if n, err := strconv.Atoi(key[1:i]); err == nil && n < len(s.plans) {
				c = n
			}
		}
	} else if key == "" {
		if n, ok := s.who[e["op"].(string)]; ok {
			c = n
		}
	}
	bad := strings.Contains(key, ".BAD.")
	for _, k := range r.Keys {
		bad = bad || strings.Contains(k, ".BAD.")
	}
	e["e"], e["c"], e["bad"] = "deliver", c+1, bad
	s.mu.Lock()
	s.kept = append(s.kept, keptReq{r, norm(r)})
	s.mu.Unlock()
	s.rec.Add(e)
	if s.block[c] {
		<-s.free
	}
	if c < 0 || bad {
		return []*server.Response{{Error: merrors.ItemNotFound}}, nil
	}
	i := int(atomic.AddInt32(&s.next[c], 1)) - 1
	if s.delay {
		time.Sleep(time.Duration(i%3) * 200 * time.Microsecond)
	}
	if i >= len(s.plans[c]) {
		return []*server.Response{{Error: merrors.ItemNotFound}}, nil
	}
	return s.plans[c][i].resp()
}

// --- requests

var sFlags = []uint32{0, 1, 0xff, 0x7fffffff, 0x80000000, 0xffffffff, 0xa5a5a5a5}
var sVals = []string{"u", "u", "e", "crlf", "reply", "bin", "magic", "len1", "len2", "len300", "len4095", "len4096", "len4097", "len70000"}
var sNums = []string{"0", "1", "2", "100", "2592000", "2592001", "1700000000", "4294967295"}
var sDeltas = []string{"0", "1", "5", "9223372036854775807", "9223372036854775808", "18446744073709551615"}
var sCas = []uint64{1, 77, 1 << 31, 1 << 63, 18446744073709551615}

// val makes a value: of a fixed kind, or of a length at which a message ends
// near the end of a buffer, or, rarely, around the size up to which readData
// allocates at once.
func (s *srvWorld) val(r *rand.Rand) []byte {
	switch n := r.Intn(1000); {
	case n < 60:
		return s.w.value("len" + strconv.Itoa([]int{4096, 4096, 8192, 16384}[r.Intn(4)]-80+r.Intn(90)))
	case n < 62:
		return s.w.value("len" + strconv.Itoa([]int{1<<20 - 1, 1 << 20, 1<<20 + 1, 1<<20 + 4096, 1500000}[r.Intn(5)]))
	}
	return s.w.value(sVals[r.Intn(len(sVals))])
}

type otherErr struct{ s string }

func (e otherErr) Error() string { return e.s }

func (s *srvWorld) errOf(out string) error {
	switch out {
	case "nf":
		return merrors.ItemNotFound
	case "ex":
		return merrors.ItemExists
	case "merr":
		return &merrors.MemcachedError{Status: []uint16{3, 4, 5, 6, 0x81, 0x82, 0x1234, 0}[s.rng.Intn(8)], Message: "memcached: odd"}
	case "err":
		return otherErr{[]string{"backend is down", "two\r\nlines", "", "STORED\r\n", strings.Repeat("long ", 300)}[s.rng.Intn(5)]}
	}
	return nil
}

func (s *srvWorld) key(c int, p string, bad bool) string {
	pre := fmt.Sprintf("c%d.", c)
	if bad {
		pre += "BAD."
	}
	switch s.rng.Intn(8) {
	case 7: // blanks to Unicode, and letters that have another case
		return pre + []string{"a\xc2\x85b", "a\xc2\xa0b", "\xe3\x80\x80", "\xe2\x80\xa8x", "\xa0\x85", "\xc4\xb0K\xe2\x84\xaa"}[s.rng.Intn(6)]
	case 0:
		return pre + strings.Repeat("L", 250-len(pre))
	case 1:
		return pre + string([]byte{0x21, 0xc3, 0xa9, 0xff, 0x80, '%', 'd'})
	case 2:
		return pre + "END"
	case 3:
		if p == "bin" {
			return pre + "a b\r\nget \x00x"
		}
		return pre + "0"
	}
	return pre + strconv.Itoa(s.rng.Intn(1000))
}

// opaque is a token of any width.
func opaque(r *rand.Rand) string {
	return strconv.FormatInt(1+r.Int63()>>uint(r.Intn(63)), 10)
}

// build makes a request concrete: its bytes in parts, the request as the
// specification sees it, and the handler's answer.
func (s *srvWorld) build(c int, p string, q *SReq) (parts [][]byte, ev Ev, resp func() ([]*server.Response, error)) {
	r := s.rng
	nk := q.Nk
	if nk == 0 {
		nk = 1
	}
	noKey := q.Op == "flush" || q.Op == "version" || q.Op == "noop"
	var keys []string
	if !noKey {
		for i := 0; i < nk; i++ {
			keys = append(keys, s.key(c, p, q.Op == "bad"))
		}
	}
	if q.Op == "bad" {
		parts = s.damage(p, q.Var, keys[0])
		return parts, Ev{"op": "bad", "ks": []string{}, "v": "", "f": "", "x": "", "d": "", "cas": "", "opt": "", "opq": "", "meta": false, "quiet": false,
			"p": p, "bin": 0, "out": "", "items": []Ev{}, "rv": "", "casq": false, "order": ""}, nil
	}
	eks := []string{}
	for _, k := range keys {
		eks = append(eks, enc([]byte(k)))
	}
	ev = Ev{"op": q.Op, "ks": eks, "v": enc(nil), "f": "00000000", "x": "0", "d": "0", "cas": "", "opt": "", "opq": "", "meta": false, "quiet": false,
		"p": p, "bin": 0, "out": q.Out, "items": []Ev{}, "rv": "", "casq": false, "order": ""}
	store := q.Op == "set" || q.Op == "add" || q.Op == "replace"
	var val []byte
	if store {
		val = s.val(r)
		ev["v"] = enc(val)
	}
	fl := sFlags[r.Intn(len(sFlags))]
	x := sNums[r.Intn(len(sNums))]
	d := sDeltas[r.Intn(len(sDeltas))]
	meta := q.Var == "meta"
	if p == "text" {
		var line string
		switch q.Op {
		case "get":
			line = "get " + strings.Join(keys, " ")
			if q.Var == "gets" {
				line = "gets " + strings.Join(keys, " ")
				ev["casq"] = true
			}
			if meta {
				line = "mg " + keys[0]
				toks := []string{"c", "f", "k", "s", "t", "v"}
				r.Shuffle(len(toks), func(i, j int) { toks[i], toks[j] = toks[j], toks[i] })
				toks = toks[:r.Intn(len(toks)+1)]
				if strings.Contains(q.Out, "val") && !strings.Contains(strings.Join(toks, ""), "v") {
					toks = append(toks, "v")
				}
				if r.Intn(3) == 0 {
					o := opaque(r)
					ev["opq"] = o
					toks = append(toks, "O"+o)
				}
				order := ""
				set := []string{}
				for _, t := range toks {
					order += t[:1]
					if t[0] != 'O' {
						set = append(set, t)
					}
				}
				sort.Strings(set)
				if q.Nk == 2 { // asks for quiet misses
					toks = append(toks, "q")
					ev["quiet"] = true
				}
				r.Shuffle(len(toks), func(i, j int) { toks[i], toks[j] = toks[j], toks[i] })
				order = ""
				for _, t := range toks {
					if t != "q" && t != "v" {
						order += t[:1]
					}
				}
				ev["opt"], ev["meta"], ev["order"] = strings.Join(set, ""), true, order
				ev["ks"] = eks[:1]
				keys = keys[:1]
				if len(toks) > 0 {
					line += " " + strings.Join(toks, " ")
				}
			}
		case "set", "add", "replace":
			if meta {
				line = fmt.Sprintf("ms %s %d", keys[0], len(val))
				toks := []string{}
				ev["f"] = "00000000"
				if r.Intn(2) == 0 {
					toks = append(toks, fmt.Sprintf("F%d", fl))
					ev["f"] = hex32(fl)
				}
				if r.Intn(2) == 0 {
					toks = append(toks, "T"+x)
					ev["x"] = x
				}
				if r.Intn(2) == 0 {
					cs := sCas[r.Intn(len(sCas))]
					toks = append(toks, fmt.Sprintf("C%d", cs))
					ev["cas"] = strconv.FormatUint(cs, 10)
				}
				switch q.Op {
				case "add":
					toks = append(toks, []string{"ME", "ME", "Me"}[r.Intn(3)])
				case "replace":
					toks = append(toks, []string{"MR", "MR", "Mr"}[r.Intn(3)])
				default:
					if r.Intn(2) == 0 {
						toks = append(toks, []string{"MS", "MS", "Ms"}[r.Intn(3)])
					}
				}
				opt := ""
				if r.Intn(3) == 0 {
					toks = append(toks, "I")
					opt += "I"
				}
				if r.Intn(3) == 0 {
					toks = append(toks, "k")
					opt += "k"
				}
				if r.Intn(3) == 0 {
					o := opaque(r)
					toks = append(toks, "O"+o)
					ev["opq"] = o
				}
				r.Shuffle(len(toks), func(i, j int) { toks[i], toks[j] = toks[j], toks[i] })
				order := ""
				for _, t := range toks {
					if t[0] == 'k' || t[0] == 'O' {
						order += t[:1]
					}
				}
				if len(toks) > 0 {
					line += " " + strings.Join(toks, " ")
				}
				ev["opt"], ev["meta"], ev["order"] = opt, true, order
			} else {
				if r.Intn(8) == 0 {
					x = "-1"
				}
				line = fmt.Sprintf("%s %s %d %s %d", q.Op, keys[0], fl, x, len(val))
				ev["f"], ev["x"] = hex32(fl), x
			}
		case "delete":
			line = "delete " + keys[0]
			if meta {
				line = "md " + keys[0]
				ev["meta"] = true
			}
		case "incr", "decr":
			line = q.Op + " " + keys[0] + " " + d
			ev["d"] = d
		case "touch":
			line = "touch " + keys[0] + " " + x
			ev["x"] = x
		case "flush":
			line = "flush_all"
			if q.Var == "delay" {
				line += " " + x
				ev["x"] = x
			}
		case "version":
			line = "version"
		}
		h := 1 + r.Intn(len(line)-1)
		parts = [][]byte{[]byte(line[:h]), []byte(line[h:]), []byte("\r"), []byte("\n")}
		if store {
			parts = append(parts, val, []byte("\r"), []byte("\n"))
		}
	} else {
		opc := map[string]byte{"get": 0, "set": 1, "add": 2, "replace": 3, "delete": 4, "incr": 5, "decr": 6, "flush": 8, "noop": 10, "version": 11, "touch": 0x1c}[q.Op]
		if q.Var == "getkq" {
			opc = 0x0d
			ev["quiet"], ev["opt"] = true, "k"
		}
		var extra []byte
		u32 := func(t string) []byte {
			n, _ := strconv.ParseUint(t, 10, 64)
			return binary.BigEndian.AppendUint32(nil, uint32(n))
		}
		u64 := func(t string) []byte {
			n, _ := strconv.ParseUint(t, 10, 64)
			return binary.BigEndian.AppendUint64(nil, n)
		}
		cas := uint64(0)
		switch q.Op {
		case "set", "add", "replace":
			extra = append(binary.BigEndian.AppendUint32(nil, fl), u32(x)...)
			ev["f"], ev["x"] = hex32(fl), x
			if r.Intn(2) == 0 {
				cas = sCas[r.Intn(len(sCas))]
				ev["cas"] = strconv.FormatUint(cas, 10)
			}
		case "incr", "decr":
			extra = append(append(u64(d), u64("3")...), u32(x)...)
			ev["d"], ev["x"] = d, x
			if r.Intn(3) == 0 {
				cas = sCas[r.Intn(len(sCas))]
				ev["cas"] = strconv.FormatUint(cas, 10)
			}
		case "touch":
			extra = u32(x)
			ev["x"] = x
		case "flush":
			if q.Var == "delay" {
				extra = u32(x)
				ev["x"] = x
			}
		}
		opq := r.Uint32()
		ev["bin"], ev["opq"] = int(opc), strconv.FormatUint(uint64(opq), 10)
		k := ""
		if len(keys) > 0 {
			k = keys[0]
			ev["ks"] = eks[:1]
		}
		h := make([]byte, 24)
		h[0], h[1], h[4] = 0x80, opc, byte(len(extra))
		binary.BigEndian.PutUint16(h[2:], uint16(len(k)))
		binary.BigEndian.PutUint32(h[8:], uint32(len(extra)+len(k)+len(val)))
		binary.BigEndian.PutUint32(h[12:], opq)
		binary.BigEndian.PutUint64(h[16:], cas)
		n := 1 + r.Intn(23)
		parts = [][]byte{h[:n], h[n:]}
		for _, b := range [][]byte{extra, []byte(k), val} {
			parts = append(parts, b)
		}
	}
	// the answer
	if q.Op == "get" {
		outs := q.Outs
		if len(outs) == 0 {
			outs = []string{q.Out}
		}
		var rs []*server.Response
		items := []Ev{}
		for i := range keys {
			if meta && i > 0 || p == "bin" && i > 0 {
				break
			}
			o := outs[i%len(outs)]
			it := Ev{"k": eks[i], "out": o, "v": "", "f": "", "c": "", "t": ""}
			switch o {
			case "hit", "val":
				it["out"] = "hit"
				v := s.val(r)
				f := sFlags[r.Intn(len(sFlags))]
				cs := sCas[r.Intn(len(sCas))]
				ttl := []int64{-1, 0, 100, 3000000}[r.Intn(4)]
				it["v"], it["f"], it["c"], it["t"] = enc(v), hex32(f), strconv.FormatUint(cs, 10), strconv.FormatInt(ttl, 10)
				it["n"] = strconv.Itoa(len(v))
				res := &server.Response{Key: keys[i], Value: v, Flags: binary.BigEndian.AppendUint32(nil, f), Cas: int64(cs), TTL: ttl}
				if f == 0 && r.Intn(2) == 0 {
					res.Flags = nil
				}
				rs = append(rs, res)
			case "miss":
				if r.Intn(2) == 0 {
					rs = append(rs, &server.Response{Error: merrors.ItemNotFound})
				}
			default:
				rs = append(rs, &server.Response{Error: s.errOf(o)})
			}
			if it["n"] == nil {
				it["n"] = ""
			}
			items = append(items, it)
		}
		ev["items"] = items
		if q.Out == "herr" {
			return parts, ev, func() ([]*server.Response, error) { return nil, errors.New("handler failed") }
		}
		return parts, ev, func() ([]*server.Response, error) { return rs, nil }
	}
	switch q.Out {
	case "herr":
		return parts, ev, func() ([]*server.Response, error) { return nil, errors.New("handler failed") }
	case "none":
		return parts, ev, func() ([]*server.Response, error) { return []*server.Response{}, nil }
	case "ok":
		res := &server.Response{}
		switch q.Op {
		case "incr", "decr":
			if p == "bin" {
				res.Value = binary.BigEndian.AppendUint64(nil, r.Uint64())
			} else {
				res.Value = []byte(strconv.FormatUint(r.Uint64(), 10))
			}
			ev["rv"] = enc(res.Value)
		case "version":
			res.Value = []byte("1.6." + strconv.Itoa(r.Intn(100)) + "-x")
			ev["rv"] = enc(res.Value)
		}
		return parts, ev, func() ([]*server.Response, error) { return []*server.Response{res}, nil }
	}
	err := s.errOf(q.Out)
	return parts, ev, func() ([]*server.Response, error) { return []*server.Response{{Error: err}}, nil }
}

func binReq(opc byte, kl, el, total int, body []byte) []byte {
	h := make([]byte, 24)
	h[0], h[1], h[4] = 0x80, opc, byte(el)
	binary.BigEndian.PutUint16(h[2:], uint16(kl))
	binary.BigEndian.PutUint32(h[8:], uint32(total))
	binary.BigEndian.PutUint32(h[12:], 7)
	return append(h, body...)
}

// damage gives the bytes of a malformed request.
func (s *srvWorld) damage(p, v, key string) [][]byte {
	r := s.rng
	one := func(b string) [][]byte {
		if len(b) < 2 {
			return [][]byte{[]byte(b)}
		}
		n := 1 + r.Intn(len(b)-1)
		return [][]byte{[]byte(b[:n]), []byte(b[n:])}
	}
	if p == "text" {
		st := []string{"set", "add", "replace"}[r.Intn(3)]
		m := map[string]string{
			"neglen": st + " " + key + " 0 0 -1\r\nx\r\n", "neglen2": st + " " + key + " 0 0 -2147483648\r\n", "biglen": st + " " + key + " 0 0 9999999999999999999\r\n",
			"overlen": st + " " + key + " 0 0 4294967297\r\n", "nanlen": st + " " + key + " 0 0 abc\r\n", "hexlen": st + " " + key + " 0 0 0x5\r\nhello\r\n",
			"nanflags": st + " " + key + " f 0 1\r\nx\r\n", "bigflags": st + " " + key + " 4294967296 0 1\r\nx\r\n", "negflags": st + " " + key + " -1 0 1\r\nx\r\n",
			"nanexp": st + " " + key + " 0 never 1\r\nx\r\n", "short": st + " " + key + " 0 0\r\n", "shorter": st + " " + key + "\r\n", "only": st + "\r\n",
			"longdata": st + " " + key + " 0 0 3\r\nabcdefgh\r\n", "nocr": st + " " + key + " 0 0 3\r\nabcXY\r\n",
			"getnone": "get\r\n", "getsnone": "gets\r\n", "getspace": "get \r\n", "delnone": "delete\r\n", "incrnone": "incr\r\n", "incrone": "incr " + key + "\r\n",
			"incrnan": "incr " + key + " x\r\n", "incrneg": "decr " + key + " -1\r\n", "incrbig": "incr " + key + " 18446744073709551616\r\n",
			"touchone": "touch " + key + "\r\n", "touchnan": "touch " + key + " soon\r\n", "mgnone": "mg\r\n", "msnone": "ms\r\n", "msone": "ms " + key + "\r\n",
			"msneg": "ms " + key + " -1\r\n\r\n", "msnan": "ms " + key + " x\r\nx\r\n", "msbig": "ms " + key + " 99999999999999999999\r\n", "msS": "ms " + key + " 1 S-1\r\nx\r\n",
			"msFnan": "ms " + key + " 1 Fx\r\nx\r\n", "msTnan": "ms " + key + " 1 Tx\r\nx\r\n", "msCnan": "ms " + key + " 1 Cx\r\nx\r\n", "msF": "ms " + key + " 1 F\r\nx\r\n",
			"mslong": "ms " + key + " 2\r\nabcd\r\n", "msmode": "ms " + key + " 1 MZ\r\nx\r\n", "mdnone": "md\r\n", "unknown": "frobnicate " + key + "\r\n", "empty": "\r\n", "lf": "\n",
			"blank": "    \r\n", "upper": "GET " + key + "\r\n", "flushnan": "flush_all x\r\n", "nul": "\x00\x00\x00\r\n", "resp": "\x81\x00\x00\x00\r\n", "reply": "STORED\r\n",
			"bin": "x" + string(binReq(0, 3, 0, 3, []byte("abc"))), "mgO": "mg " + key + " Ox\r\n", "long": strings.Repeat("A", 70000) + "\r\n",
		}
		b, ok := m[v]
		if !ok {
			panic("damage " + v)
		}
		return one(b)
	}
	k := []byte(key)
	n := len(k)
	e8, e20 := make([]byte, 8), make([]byte, 20)
	m := map[string][]byte{
		"keyover": binReq(0, n+100, 0, n, k), "extraover": binReq(1, n, 8, 4, e8), "zerototal": binReq(1, n, 8, 0, append(e8, k...)), "setnoextra": binReq(1, n, 0, n, k),
		"setextra4": binReq(1, n, 4, n+4, append(e8[:4], k...)), "getextra": binReq(0, n, 8, n+8, append(e8, k...)), "getvalue": binReq(0, n, 0, n+3, append(k, 'x', 'y', 'z')),
		"getnokey": binReq(0, 0, 0, 0, nil), "setnokey": binReq(1, 0, 8, 9, append(e8, 'x')), "delextra": binReq(4, n, 4, n+4, append(e8[:4], k...)),
		"incrshort": binReq(5, n, 8, n+8, append(e8, k...)), "incrval": binReq(5, n, 20, n+21, append(append(e20, k...), 'x')), "incrnoextra": binReq(6, n, 0, n, k),
		"touchnoextra": binReq(0x1c, n, 0, n, k), "touch8": binReq(0x1c, n, 8, n+8, append(e8, k...)), "unknown": binReq(0x77, n, 0, n, k), "opff": binReq(0xff, n, 0, n, k),
		"magic": append([]byte{0}, binReq(0, n, 0, n, k)[1:]...),
		"resp":  append([]byte{0x81}, binReq(0, n, 0, n, k)[1:]...), "flushkey": binReq(8, n, 0, n, k), "flush8": binReq(8, 0, 8, 8, e8), "noopkey": binReq(10, n, 0, n, k),
		"verval": binReq(11, 0, 0, 3, []byte("abc")), "kqextra": binReq(0x0d, n, 4, n+4, append(e8[:4], k...)), "max": binReq(1, 0xffff, 0xff, -1, make([]byte, 300)),
		"addover": binReq(2, 0xffff, 8, 16, make([]byte, 16)), "neg": binReq(3, n, 8, n+7, append(e8, k...)),
	}
	b, ok := m[v]
	if !ok {
		panic("damage " + v)
	}
	return one(string(b))
}

// --- the replies

// parseText splits the output of a text connection into replies.
func parseText(out []byte) (units []Ev, rest string) {
	rd := bufio.NewReader(bytes.NewReader(out))
	for {
		line, err := rd.ReadString('\n')
		if err != nil {
			return units, enc([]byte(line))
		}
		if !strings.HasSuffix(line, "\r\n") {
			return append(units, Ev{"kind": "garbage", "t": enc([]byte(line))}), "garbage"
		}
		ln := line[:len(line)-2]
		t := strings.Split(ln, " ")
		data := func(n string) ([]byte, bool) {
			k, err := strconv.Atoi(n)
			if err != nil || k < 0 || k > 1<<27 {
				return nil, false
			}
			b := make([]byte, k+2)
			if _, err := io.ReadFull(rd, b); err != nil {
				return nil, false
			}
			return b[:k], b[k] == '\r' && b[k+1] == '\n'
		}
		switch {
		case t[0] == "VALUE" || ln == "END":
			items := []Ev{}
			for t[0] == "VALUE" {
				if len(t) < 4 || len(t) > 5 {
					return append(units, Ev{"kind": "garbage", "t": enc([]byte(ln))}), "garbage"
				}
				f, err := strconv.ParseUint(t[2], 10, 32)
				v, ok := data(t[3])
				if err != nil || !ok {
					return append(units, Ev{"kind": "garbage", "t": enc([]byte(ln))}), "garbage"
				}
				c := ""
				if len(t) == 5 {
					c = t[4]
				}
				items = append(items, Ev{"k": enc([]byte(t[1])), "f": hex32(uint32(f)), "v": enc(v), "c": c})
				line, err = rd.ReadString('\n')
				if err != nil {
					return units, "partial"
				}
				ln = strings.TrimSuffix(line, "\r\n")
				t = strings.Split(ln, " ")
			}
			if ln != "END" {
				return append(units, Ev{"kind": "garbage", "t": enc([]byte(ln))}), "garbage"
			}
			units = append(units, Ev{"kind": "values", "items": items})
		case t[0] == "VA":
			if len(t) < 2 {
				return append(units, Ev{"kind": "garbage", "t": enc([]byte(ln))}), "garbage"
			}
			v, ok := data(t[1])
			if !ok {
				return append(units, Ev{"kind": "garbage", "t": enc([]byte(ln))}), "garbage"
			}
			units = append(units, Ev{"kind": "VA", "v": enc(v), "toks": tokens(t[2:])})
		case t[0] == "HD":
			units = append(units, Ev{"kind": "HD", "v": "", "toks": tokens(t[1:])})
		case t[0] == "EN" || t[0] == "NF" || t[0] == "EX" || t[0] == "NS":
			units = append(units, Ev{"kind": t[0]})
		case ln == "STORED" || ln == "DELETED" || ln == "TOUCHED" || ln == "OK" || ln == "NOT_FOUND" || ln == "EXISTS" || ln == "NOT_STORED":
			units = append(units, Ev{"kind": ln})
		case t[0] == "SERVER_ERROR" || t[0] == "CLIENT_ERROR" || ln == "ERROR":
			units = append(units, Ev{"kind": "ERROR"})
		case t[0] == "VERSION" && len(t) == 2:
			units = append(units, Ev{"kind": "VERSION", "v": enc([]byte(t[1]))})
		default:
			if _, err := strconv.ParseUint(ln, 10, 64); err == nil {
				units = append(units, Ev{"kind": "NUM", "v": enc([]byte(ln))})
				continue
			}
			return append(units, Ev{"kind": "garbage", "t": enc([]byte(ln))}), "garbage"
		}
	}
}

// tokens splits the return tokens of a meta reply into letter and value.
func tokens(t []string) []Ev {
	r := []Ev{}
	for _, x := range t {
		if x == "" {
			r = append(r, Ev{"t": "", "v": ""})
			continue
		}
		v := enc([]byte(x[1:]))
		if n, err := strconv.ParseUint(x[1:], 10, 32); x[0] == 'f' && err == nil {
			v = hex32(uint32(n))
		}
		r = append(r, Ev{"t": enc([]byte(x[:1])), "v": v})
	}
	return r
}

func parseBin(out []byte) (units []Ev, rest string) {
	for len(out) > 0 {
		if len(out) < 24 {
			return units, "partial"
		}
		if out[0] != 0x81 {
			return append(units, Ev{"kind": "garbage", "t": ""}), "garbage"
		}
		kl, el, n := int(binary.BigEndian.Uint16(out[2:])), int(out[4]), int64(binary.BigEndian.Uint32(out[8:]))
		if n < int64(kl+el) || n > 1<<28 {
			return append(units, Ev{"kind": "garbage", "t": "lengths"}), "garbage"
		}
		if int64(len(out)) < 24+n {
			return units, "partial"
		}
		b := out[24 : 24+n]
		ex := ""
		if el > 0 {
			ex = flagHex(b[:el])
		}
		units = append(units, Ev{"kind": "bin", "op": int(out[1]), "st": int(binary.BigEndian.Uint16(out[6:])), "f": ex, "k": enc(b[el : el+kl]), "v": enc(b[el+kl:]),
			"opq": strconv.FormatUint(uint64(binary.BigEndian.Uint32(out[12:])), 10), "cs": strconv.FormatUint(binary.BigEndian.Uint64(out[16:]), 10)})
		out = out[24+n:]
	}
	return units, ""
}

// --- a scenario

// wants says how many replies a prefix of requests gives (the number the
// harness waits for; the specification judges).
func wants(ev Ev) int {
	if ev["quiet"].(bool) && ev["op"] == "get" {
		its := ev["items"].([]Ev)
		if len(its) > 0 && its[0]["out"] == "miss" {
			return 0
		}
	}
	return 1
}

func runSrv(sc *Scenario) *Trace {
	start := time.Now()
	defer func() {
		if time.Since(start) > 2500*time.Millisecond+time.Duration(sc.Opt["pause"])*time.Millisecond+time.Duration(sc.Opt["churn"]+sc.Opt["crowd"])*2*time.Millisecond {
			atomic.AddInt64(&slows, 5)
		}
	}()
	hs := fnv.New64a()
	hs.Write([]byte(sc.ID))
	s := &srvWorld{sc: sc, rec: &Rec{}, who: map[string]int{}, w: &world{sc: &Scenario{}, rec: &Rec{}}}
	s.rng = rand.New(rand.NewSource(int64(hs.Sum64()) ^ sc.Seed))
	s.delay = sc.Opt["delay"] > 0
	n := len(sc.Conns)
	s.plans = make([][]plan, n)
	s.next = make([]int32, n)
	type cs struct {
		l     link
		segs  [][]byte
		reqs  []Ev
		want  int
		fatal bool
		slow  bool
		stay  bool
	}
	s.block, s.free = map[int]bool{}, make(chan struct{})
	conns := make([]*cs, n)
	var all [][]Ev
	for i := range sc.Conns {
		c := &sc.Conns[i]
		st := &cs{stay: c.End == "stay"}
		var seg []byte
		for j := range c.Reqs {
			q := &c.Reqs[j]
			if q.Op == "flush" || q.Op == "version" || q.Op == "noop" {
				if o, ok := s.who[q.Op]; ok && o != i {
					q.Op, q.Var = "get", ""
					q.Out = "miss"
				} else {
					s.who[q.Op] = i
				}
			}
			parts, ev, resp := s.build(i, c.P, q)
			ev["whole"] = true
			st.reqs = append(st.reqs, ev)
			if q.Op != "bad" {
				s.plans[i] = append(s.plans[i], plan{ev, resp})
			}
			if !st.fatal {
				if q.Op == "bad" || q.Out == "herr" {
					st.fatal = true
				} else {
					st.want += wants(ev)
				}
			}
			last := j == len(c.Reqs)-1
			if c.End == "trunc" && last { // the client leaves in the middle of the request
				whole := bytes.Join(parts, nil)
				parts = [][]byte{whole[:s.rng.Intn(len(whole))]}
				ev["whole"] = false
				if q.Op != "bad" && q.Out != "herr" {
					st.want -= wants(ev)
				}
			}
			for k, p := range parts {
				seg = append(seg, p...)
				cut := false
				for _, x := range q.Cut {
					if x == k+1 {
						cut = true
					}
				}
				if sc.Mode == "bytes" {
					lim := 0
					for _, b := range p {
						if lim < 3000 {
							st.segs = append(st.segs, []byte{b})
						}
						lim++
					}
					if lim > 3000 {
						st.segs = append(st.segs, p[3000:])
					}
					seg = nil
					continue
				}
				if cut && len(seg) > 0 {
					st.segs = append(st.segs, seg)
					seg = nil
				}
			}
		}
		if len(seg) > 0 {
			st.segs = append(st.segs, seg)
		}
		conns[i] = st
		all = append(all, st.reqs)
		if st.reqs == nil {
			all[i] = []Ev{}
		}
	}
	// the server
	srv := &server.Server{Handler: s}
	var ml *memListener
	var sl net.Listener
	path := ""
	served := make(chan error, 1)
	if sc.Net != "" {
		path = fmt.Sprintf("%s/v%d", scratch, atomic.AddInt64(&sockSeq, 1))
		addr := path
		if sc.Net == "tcp" {
			addr = "127.0.0.1:0"
		}
		var err error
		if sl, err = net.Listen(sc.Net, addr); err != nil {
			return &Trace{ID: sc.ID, Target: "srv", Ev: []Ev{{"e": "harness", "msg": err.Error()}}}
		}
		go func() { served <- srv.Serve(sl) }()
	} else {
		ml = newMemListener()
		atomic.StoreInt32(&ml.errs, int32(sc.Opt["accepterr"]))
		go func() { served <- srv.Serve(ml) }()
	}
	open := func() (link, error) {
		if ml != nil {
			c := newMemConn()
			ml.ch <- c
			return c, nil
		}
		c, err := net.Dial(sc.Net, sl.Addr().String())
		if err != nil {
			return nil, err
		}
		return newSockLink(c), nil
	}
	if s.rng.Intn(4) == 0 { // a client that has nothing to say
		if l, err := open(); err == nil {
			defer l.finish(true)
		}
	}
	// clients that come and go, and clients that come and stay
	mutter := func(l link) {
		l.send([]byte([]string{"", "", "get fresh\r\n", "get fresh\r\nget fr", "set k 0 0 10\r\nabc", "ge", "\x80", "\x80\x00\x00\x05", "nonsense\r\n",
			"\r\n", "set k 0 0 -1\r\n", "\x80\x01\x00\x01\x08\x00\x00\x00\x00\x00\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00"}[s.rng.Intn(12)]))
	}
	for i := 0; i < sc.Opt["churn"]; i++ {
		if l, err := open(); err == nil {
			mutter(l)
			if s.rng.Intn(4) == 0 {
				l.settle(time.Millisecond)
			}
			l.finish(s.rng.Intn(2) == 0)
		}
	}
	for i := 0; i < sc.Opt["crowd"]; i++ {
		if l, err := open(); err == nil {
			mutter(l)
			defer l.finish(true)
		}
	}
	for i := range conns {
		l, err := open()
		if err != nil {
			return &Trace{ID: sc.ID, Target: "srv", Ev: []Ev{{"e": "harness", "msg": err.Error()}}}
		}
		conns[i].l = l
		if conns[i].stay {
			m, ok := l.(*memConn)
			switch x := s.rng.Intn(3); {
			case !ok: // sending to a server that does not read would block
			case x == 0:
				m.mu.Lock()
				m.deaf = true
				m.mu.Unlock()
			case x == 1:
				s.block[i] = true
			}
		}
	}
	// the segments, in the order of the scenario, then the rest round robin
	pos := make([]int, n)
	push := func(i int) bool {
		c := conns[i]
		if pos[i] >= len(c.segs) {
			return false
		}
		c.l.send(c.segs[pos[i]])
		pos[i]++
		if c.stay {
			c.l.settle(2 * time.Millisecond)
		} else if sc.Mode != "rush" && sc.Mode != "bytes" {
			t := time.Now()
			if c.slow {
				c.l.settle(5 * time.Millisecond)
			} else {
				c.l.settle(2 * time.Second)
			}
			c.slow = c.slow || time.Since(t) > time.Second // the server is stuck
		}
		return true
	}
	for _, i := range sc.Order {
		if i >= 1 && i <= n {
			push(i - 1)
		}
	}
	rounds := 0
	for more := true; more; rounds++ {
		more = false
		if rounds == 1 {
			time.Sleep(time.Duration(sc.Opt["pause"]) * time.Millisecond)
		}
		for i := range conns {
			if push(i) {
				more = true
			}
		}
	}
	parse := func(i int, b []byte) ([]Ev, string) {
		if sc.Conns[i].P == "text" {
			return parseText(b)
		}
		return parseBin(b)
	}
	late := false // something has not come in time: the rest is waited for less patiently
	patient := func(f func(time.Duration)) {
		t := time.Now()
		if late {
			f(100 * time.Millisecond)
			return
		}
		f(3 * time.Second)
		late = time.Since(t) > 2900*time.Millisecond
	}
	for i, c := range conns {
		i, c := i, c
		if c.stay {
			continue
		}
		late = late || c.slow
		if sc.Conns[i].End != "reset" {
			patient(func(d time.Duration) {
				c.l.waitOutput(func(b []byte) bool {
					u, _ := parse(i, b)
					return len(u) >= c.want
				}, d)
			})
		}
		patient(c.l.settle)
	}
	for i, c := range conns {
		if !c.stay {
			c.l.finish(sc.Conns[i].End == "reset")
		}
	}
	finished := func(i int, c *cs) {
		patient(func(d time.Duration) { c.l.waitOutput(func([]byte) bool { return false }, d) }) // until the server closes
		units, rest := parse(i, c.l.output())
		for _, u := range units {
			u["e"], u["c"] = "reply", i+1
			s.rec.Add(u)
		}
		s.rec.Add(Ev{"e": "done", "c": i + 1, "rest": rest, "closed": c.l.closed(), "reset": sc.Conns[i].End == "reset" || c.stay})
	}
	for i, c := range conns {
		if !c.stay {
			finished(i, c)
		}
	}
	// the server still serves a new connection
	if l, err := open(); err == nil {
		l.send([]byte("get fresh\r\n"))
		patient(func(d time.Duration) {
			l.waitOutput(func(b []byte) bool { return bytes.HasSuffix(b, []byte("END\r\n")) }, d)
		})
		o := l.output()
		s.rec.Add(Ev{"e": "fresh", "ok": string(o) == "END\r\n"})
		l.finish(true)
	} else {
		s.rec.Add(Ev{"e": "fresh", "ok": false})
	}
	// the clients that have stayed let go
	close(s.free)
	for _, c := range conns {
		if m, ok := c.l.(*memConn); ok && c.stay {
			m.mu.Lock()
			m.deaf = false
			m.cond.Broadcast()
			m.mu.Unlock()
		}
	}
	for i, c := range conns {
		if c.stay {
			c.l.finish(false)
			finished(i, c)
		}
	}
	s.mu.Lock()
	for _, k := range s.kept {
		now := norm(k.r)
		for f := range now {
			if fmt.Sprint(now[f]) != fmt.Sprint(k.ev[f]) {
				s.rec.Add(Ev{"e": "kept", "fld": f})
				break
			}
		}
	}
	s.mu.Unlock()
	s.rec.Stop()
	select {
	case <-served:
		s.rec.ev = append(s.rec.ev, Ev{"e": "fresh", "ok": false}) // Serve has returned by itself
	default:
	}
	if ml != nil {
		ml.Close()
	} else {
		sl.Close()
		os.Remove(path)
	}
	return &Trace{ID: sc.ID, Proto: "", Target: "srv", Protos: map[string]string{}, Bs: []string{}, Ss: []string{}, Conns: all, Ev: s.rec.ev}
}

// runFuzz sends arbitrary bytes; the server must survive and go on serving
// the other connections. It also watches the memory that mere claims of a
// length cause to be allocated.
func runFuzz(sc *Scenario) *Trace {
	hs := fnv.New64a()
	hs.Write([]byte(sc.ID))
	s := &srvWorld{sc: sc, rec: &Rec{}, who: map[string]int{}, w: &world{sc: &Scenario{}, rec: &Rec{}}}
	s.rng = rand.New(rand.NewSource(int64(hs.Sum64()) ^ sc.Seed))
	r := s.rng
	s.plans = [][]plan{}
	ml := newMemListener()
	srv := &server.Server{Handler: s}
	served := make(chan error, 1)
	go func() { served <- srv.Serve(ml) }()
	good := newMemConn()
	ml.ch <- good
	var evs []Ev
	ended := func() *Trace {
		evs = append(evs, Ev{"e": "fresh", "ok": false}) // Serve has returned by itself
		good.finish(false)
		return &Trace{ID: sc.ID, Target: "srv", Protos: map[string]string{}, Bs: []string{}, Ss: []string{}, Conns: [][]Ev{{}}, Ev: evs}
	}
	open := func() *memConn {
		c := newMemConn()
		select {
		case ml.ch <- c:
			return c
		case <-served:
			return nil
		}
	}
	ask := func(i int) bool {
		l0 := len(good.output())
		good.send([]byte("get fresh\r\n"))
		good.waitOutput(func(b []byte) bool { return len(b) >= l0+5 }, 3*time.Second)
		return string(good.output()[l0:]) == "END\r\n"
	}
	rounds := sc.Opt["rounds"]
	for i := 0; i < rounds; i++ {
		var b []byte
		p := []string{"text", "bin"}[r.Intn(2)]
		for j := 0; j < 1+r.Intn(4); j++ {
			ops := []string{"get", "set", "add", "replace", "delete", "incr", "decr", "touch", "flush", "version", "noop"}
			q := &SReq{Op: ops[r.Intn(len(ops))], Out: "ok", Nk: 1 + r.Intn(3), Var: []string{"", "meta", "gets", "getkq", "delay"}[r.Intn(5)]}
			if p == "text" && q.Op == "noop" || q.Var == "getkq" && (p == "text" || q.Op != "get") || q.Var == "meta" && p == "bin" {
				q.Op, q.Var = "get", ""
			}
			if q.Op == "get" {
				q.Out = "hit"
			}
			parts, _, _ := s.build(0, p, q)
			b = append(b, bytes.Join(parts, nil)...)
		}
		if len(b) > 20000 {
			b = b[:20000]
		}
		// damage it
		for k := r.Intn(5); k >= 0; k-- {
			if len(b) == 0 {
				break
			}
			x := r.Intn(len(b))
			if r.Intn(2) == 0 && len(b) > 40 {
				x = r.Intn(40)
			}
			switch r.Intn(8) {
			case 0:
				b[x] = byte(r.Intn(256))
			case 1:
				b[x] ^= 1 << uint(r.Intn(8))
			case 2:
				b = append(b[:x], b[x+1:]...)
			case 3:
				b = append(b[:x], append([]byte{[]byte(" \r\n-0\x009\x80\x81\xff")[r.Intn(10)]}, b[x:]...)...)
			case 4:
				b = b[:x]
			case 5:
				b = append(b[:x:x], append([]byte(" 99999999999999999999 -1 4294967295 2147483647 "), b[x:]...)...)
			case 6:
				if p == "bin" && len(b) >= 24 {
					copy(b[2:], [][]byte{{0xff, 0xff}, {0, 0}, {0x7f, 0xff}}[r.Intn(3)])
				}
			case 7:
				if p == "bin" && len(b) >= 24 {
					copy(b[8:], [][]byte{{0xff, 0xff, 0xff, 0xff}, {0, 0, 0, 0}, {0x7f, 0xff, 0xff, 0xff}, {0, 0, 0, 1}}[r.Intn(4)])
				}
			}
		}
		c := open()
		if c == nil {
			return ended()
		}
		for len(b) > 0 {
			n := 1 + r.Intn(len(b))
			if r.Intn(2) == 0 {
				n = len(b)
			}
			c.send(b[:n])
			b = b[n:]
		}
		if r.Intn(2) == 0 {
			c.settle(2 * time.Second)
		}
		c.finish(r.Intn(3) == 0)
		if i%20 == 19 || i == rounds-1 {
			evs = append(evs, Ev{"e": "fresh", "ok": ask(i)})
		}
		c.waitOutput(func([]byte) bool { return false }, 3*time.Second)
		if !c.closed() {
			evs = append(evs, Ev{"e": "stuck"})
			return ended()
		}
		if i%20 == 19 && !evs[len(evs)-1]["ok"].(bool) {
			return ended()
		}
	}
	if sc.Opt["mem"] > 0 {
		for _, b := range [][]byte{
			binReq(1, 3, 8, -1, []byte("12345678abc")), binReq(1, 3, 8, 0x7fffffff, []byte("12345678abc")), binReq(0, 3, 0, -1, []byte("abc")), binReq(2, 3, 8, 0x40000000, nil),
			[]byte("set k 0 0 2147483647\r\nabc"), []byte("ms k 4294967295\r\nabc"), []byte("ms k 2147483647 T0\r\n"), []byte("add k 0 0 1073741824\r\n"),
			[]byte("ms k 3 S2147483647\r\nab"), []byte("ms k 0 S1999999999\r\nab")} {
			var m0, m1 runtime.MemStats
			runtime.ReadMemStats(&m0)
			var cs []*memConn
			for j := 0; j < 3; j++ {
				c := open()
				if c == nil {
					return ended()
				}
				c.send(b)
				c.settle(3 * time.Second)
				cs = append(cs, c)
			}
			runtime.ReadMemStats(&m1)
			evs = append(evs, Ev{"e": "mem", "mb": int((m1.TotalAlloc - m0.TotalAlloc) >> 20)})
			for _, c := range cs {
				c.finish(false)
				c.waitOutput(func([]byte) bool { return false }, 3*time.Second)
			}
			evs = append(evs, Ev{"e": "fresh", "ok": ask(0)})
		}
		// a line that never ends
		c := open()
		if c == nil {
			return ended()
		}
		chunk := bytes.Repeat([]byte("A"), 1<<20)
		for j := 0; j < 64 && !c.closed(); j++ {
			c.send(chunk)
			c.settle(2 * time.Second)
		}
		evs = append(evs, Ev{"e": "line", "closed": c.closed()})
		c.finish(false)
	}
	select {
	case <-served:
		evs = append(evs, Ev{"e": "fresh", "ok": false})
	default:
	}
	good.finish(false)
	ml.Close()
	return &Trace{ID: sc.ID, Target: "srv", Protos: map[string]string{}, Bs: []string{}, Ss: []string{}, Conns: [][]Ev{{}}, Ev: evs}
}
