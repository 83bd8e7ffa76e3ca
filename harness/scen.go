package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"hash/fnv"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"runtime/pprof"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"go.f110.dev/go-memcached/client"
	"go.f110.dev/go-memcached/cluster"
	merrors "go.f110.dev/go-memcached/errors"
	"go.f110.dev/go-memcached/proxy"
	"go.f110.dev/go-memcached/server"
)

// Step is one step of a scenario, in the vocabulary of the specification's
// generators. Keys and values are symbols; the runner makes them concrete.
type Step struct {
	Op    string   `json:"op"`
	K     string   `json:"k,omitempty"`
	Ks    []string `json:"ks,omitempty"`
	V     string   `json:"v,omitempty"`
	F     string   `json:"f,omitempty"`
	X     int      `json:"x,omitempty"`
	XA    bool     `json:"xa,omitempty"` // absolute expiration: base + X
	D     int64    `json:"d,omitempty"`
	Sh    string   `json:"sh,omitempty"`  // steps with the same name pass the same item
	Cas   string   `json:"cas,omitempty"` // "", "obs" (last token seen), "old" (first token seen), "bogus"
	Fault *Fault   `json:"fault,omitempty"`
	B     string   `json:"b,omitempty"` // backend of the fault, drop, down, up
	N     int64    `json:"n,omitempty"`
	C     string   `json:"c,omitempty"` // the client of the router that makes the call; "pool" is the pool itself
}

// Scenario is a list of steps against one target.
type Scenario struct {
	ID      string            `json:"id"`
	Target  string            `json:"target"` // server, single, replica
	Proto   string            `json:"proto"`  // text, meta, binary (server); per-backend list otherwise
	Protos  []string          `json:"protos,omitempty"`
	NB      int               `json:"nb,omitempty"`
	NS      int               `json:"ns,omitempty"`
	Net     string            `json:"net,omitempty"`
	Mode    string            `json:"mode,omitempty"`
	KeySet  string            `json:"keyset,omitempty"`
	Keys    map[string]string `json:"keys,omitempty"`
	KeysHex map[string]string `json:"keyshex"`
	Timeout int               `json:"timeout,omitempty"` // ms for faulty calls
	Steps   []Step            `json:"steps"`
	Threads [][]Step          `json:"threads,omitempty"`
	After   []Step            `json:"after,omitempty"` // when the threads have ended
	Probe   bool              `json:"probe,omitempty"` // epilogue: read everything back
	Big     bool              `json:"big,omitempty"`
	Seed    int64             `json:"seed,omitempty"`
	Opt     map[string]int    `json:"opt,omitempty"`
	Kind    string            `json:"kind,omitempty"`
	EnOld   bool              `json:"enold,omitempty"`
	Conns   []SConn           `json:"conns,omitempty"` // server scenarios
	Order   []int             `json:"order,omitempty"`
}

// Trace is what the trace specifications read.
type Trace struct {
	ID     string            `json:"id"`
	Proto  string            `json:"proto"`
	Target string            `json:"target"`
	Protos map[string]string `json:"protos"`
	HB     bool              `json:"hb"`
	Auto   bool              `json:"auto"`
	Bs     []string          `json:"bs"`
	Ss     []string          `json:"ss"`
	Conns  [][]Ev            `json:"conns,omitempty"`
	Ev     []Ev              `json:"ev"`
}

type api interface {
	Get(string) (*client.Item, error)
	GetMulti(...string) ([]*client.Item, error)
	Set(*client.Item) error
	Add(*client.Item) error
	Replace(*client.Item) error
	Delete(string) error
	Increment(string, int, int) (int64, error)
	Decrement(string, int, int) (int64, error)
}

type toucher interface {
	Touch(string, int) error
	Flush() error
	Close() error
}
type reconnecter interface{ Reconnect() error }
type versioner interface{ Version() (string, error) }
type mversioner interface {
	Version() (map[string]string, error)
}

func setTimeout(s client.Server, d time.Duration) {
	switch v := s.(type) {
	case *client.ServerWithTextProtocol:
		v.Timeout = d
	case *client.ServerWithMetaProtocol:
		v.Timeout = d
	case *client.ServerWithBinaryProtocol:
		v.Timeout = d
	}
}

func dialServer(proto, name, network, addr string, opts ...client.ServerOpt) (client.Server, error) {
	ctx, cancel := context.WithTimeout(context.Background(), 10*time.Second)
	defer cancel()
	switch proto {
	case "text":
		s, err := client.NewServerWithTextProtocol(ctx, name, network, addr, opts...)
		if err != nil {
			return nil, err
		}
		return s, nil
	case "meta":
		s, err := client.NewServerWithMetaProtocol(ctx, name, network, addr, opts...)
		if err != nil {
			return nil, err
		}
		return s, nil
	case "binary":
		s, err := client.NewServerWithBinaryProtocol(ctx, name, network, addr, opts...)
		if err != nil {
			return nil, err
		}
		return s, nil
	}
	return nil, fmt.Errorf("unknown protocol %q", proto)
}

// world is one running scenario.
type world struct {
	sc    *Scenario
	rec   *Rec
	rng   *rand.Rand
	bs    map[string]*Backend
	bids  []string
	sids  []string
	srv   []client.Server
	byID  map[string]client.Server
	prot  map[string]string
	tgt   interface{}
	names map[string]string
	uniq  int64
	base  int64
	keep  []kept
	obs   map[string][]uint64
	last  map[string]*client.Item
	hung  bool
	long  time.Duration
	ncal  int
	real  bool
	rcl   map[string]client.Server // clients of the router
	stop  []func()

	flightMu sync.Mutex
	flight   map[*flight]bool
	shared   map[string]*arg
}

// flight is what a call in progress was passed: it must look the same whenever
// somebody looks.
type flight struct {
	same func() bool
	bad  bool
}

// arg is an item that calls share.
type arg struct {
	it     *client.Item
	before client.Item
	same   func() bool
}

// watch looks at the arguments of the calls in progress.
func (w *world) watch() {
	w.flightMu.Lock()
	defer w.flightMu.Unlock()
	for f := range w.flight {
		if !f.same() {
			f.bad = true
		}
	}
}

// fly runs a call and reports whether its arguments were left alone all the time.
func (w *world) fly(same func() bool, call func()) bool {
	f := &flight{same: same}
	w.flightMu.Lock()
	w.flight[f] = true
	w.flightMu.Unlock()
	defer func() {
		w.flightMu.Lock()
		delete(w.flight, f)
		w.flightMu.Unlock()
	}()
	call()
	w.flightMu.Lock()
	defer w.flightMu.Unlock()
	return !f.bad && same()
}

type kept struct {
	it   *client.Item
	copy client.Item
}

const longTimeout = 5 * time.Second
const hangLimit = 8 * time.Second

// A healthy call takes well under slowCall. A scenario ends after a slow call
// that no fault explains, and a run ends after enough of them.
const slowCall = 3 * time.Second

var hangs, slows int64

func newWorld(sc *Scenario) (*world, error) {
	h := fnv.New64a()
	h.Write([]byte(sc.ID))
	w := &world{sc: sc, rec: &Rec{}, byID: map[string]client.Server{}, prot: map[string]string{}, names: map[string]string{}, bs: map[string]*Backend{}, obs: map[string][]uint64{}, last: map[string]*client.Item{}, long: longTimeout,
		flight: map[*flight]bool{}, shared: map[string]*arg{}}
	w.rng = rand.New(rand.NewSource(int64(h.Sum64()) ^ sc.Seed))
	if sc.Keys == nil {
		sc.Keys = map[string]string{}
	}
	if sc.NB == 0 {
		sc.NB = 1
	}
	network := sc.Net
	if network == "" {
		network = "unix"
	}
	mk := func(id string) error {
		b, err := NewBackend(id, network, w.rec)
		if err != nil {
			return err
		}
		b.mode = sc.Mode
		b.watch = w.watch
		b.enOld = sc.EnOld
		// tokens are 64-bit numbers
		starts := []uint64{0, 0, 1<<31 - 3, 1<<32 - 3, 1<<53 - 2, 1<<63 - 3, 1<<64 - 1<<20}
		b.cas = starts[w.rng.Intn(len(starts))] + uint64(1000*len(w.bs))
		if w.base == 0 {
			w.base = b.base
		}
		b.base = w.base
		w.bs[id] = b
		return nil
	}
	for i := 0; i < sc.NB; i++ {
		id := "p" + strconv.Itoa(i)
		if err := mk(id); err != nil {
			return nil, err
		}
		w.bids = append(w.bids, id)
	}
	for i := 0; i < sc.NS; i++ {
		id := "s" + strconv.Itoa(i)
		if err := mk(id); err != nil {
			return nil, err
		}
		w.sids = append(w.sids, id)
	}
	if sc.Opt["coll"] > 0 {
		w.collide()
	}
	if n := sc.Opt["names"]; n > 0 {
		for i, id := range append(append([]string(nil), w.bids...), w.sids...) {
			w.names[id] = fmt.Sprintf([]string{"10.0.0.1:%d", "cache%d.example.org", "serv\u00e9r %d\n", "router%d", "%[2]s%[1]d", "%d"}[(n-1)%6], 11211+i, strings.Repeat("n", 300))
			if n == 6 && i == 0 {
				w.names[id] = ""
			}
		}
	}
	return w, nil
}

func (w *world) protoOf(i int) string {
	if i < len(w.sc.Protos) {
		return w.sc.Protos[i]
	}
	return w.sc.Proto
}

func (w *world) connect(opts ...client.ServerOpt) error {
	dial := func(proto, id string) (client.Server, error) {
		var s client.Server
		var err error
		// the label tells whose goroutines are whose
		pprof.Do(context.Background(), pprof.Labels("scenario", w.sc.ID), func(context.Context) {
			s, err = dialServer(proto, w.name(id), w.bs[id].Network, w.bs[id].Addr, opts...)
		})
		if err == nil {
			setTimeout(s, w.long)
			w.srv = append(w.srv, s)
			w.byID[id] = s
			w.prot[id] = proto
		}
		return s, err
	}
	switch w.sc.Target {
	case "server":
		s, err := dial(w.sc.Proto, "p0")
		if err != nil {
			return err
		}
		w.tgt = s
	case "single", "replica", "router":
		for i, id := range w.bids {
			p := w.protoOf(i)
			if w.sc.Target != "single" {
				p = "meta"
			}
			if _, err := dial(p, id); err != nil {
				return err
			}
		}
		for _, id := range w.sids {
			if _, err := dial("meta", id); err != nil {
				return err
			}
		}
		if err := w.pool(); err != nil {
			return err
		}
		if bin := os.Getenv("ROUTER"); bin != "" {
			return w.routerCommand(bin)
		}
		if w.sc.Target == "router" {
			return w.router()
		}
		return nil
	default:
		return fmt.Errorf("unknown target %q", w.sc.Target)
	}
	return nil
}

// pool makes a pool of the connections, listed in a random order.
func (w *world) pool() error {
	perm := func(ids []string) []string {
		r := append([]string(nil), ids...)
		w.rng.Shuffle(len(r), func(i, j int) { r[i], r[j] = r[j], r[i] })
		return r
	}
	if w.sc.Target == "single" {
		list := []client.Server{}
		for _, id := range perm(w.bids) {
			list = append(list, w.byID[id])
		}
		p, err := client.NewSinglePool(list...)
		if err != nil {
			return err
		}
		w.tgt = p
		return nil
	}
	var pr, se []*client.ServerWithMetaProtocol
	for _, id := range perm(w.bids) {
		pr = append(pr, w.byID[id].(*client.ServerWithMetaProtocol))
	}
	for _, id := range perm(w.sids) {
		se = append(se, w.byID[id].(*client.ServerWithMetaProtocol))
	}
	w.tgt = cluster.NewReplicaPool(pr, se)
	return nil
}

// router puts a router in front of the pool and connects a client of every
// protocol to it.
func (w *world) router() error {
	path := fmt.Sprintf("%s/r%d", scratch, atomic.AddInt64(&sockSeq, 1))
	l, err := net.Listen("unix", path)
	if err != nil {
		return err
	}
	srv := &server.Server{Handler: proxy.NewReplicaProxy(w.tgt.(*cluster.ReplicaPool))}
	go srv.Serve(l)
	w.stop = append(w.stop, func() { l.Close() })
	return w.routerClients("unix", path)
}

// routerCommand is the same with the router command as a process of its own. It
// listens on a port of its own choice, so there is one at a time.
func (w *world) routerCommand(bin string) error {
	list := func(ids []string) string {
		s := ""
		for _, id := range ids {
			host, port, _ := net.SplitHostPort(w.bs[id].Addr)
			s += fmt.Sprintf("  - name: %q\n    host: %s\n    port: %s\n", w.name(id), host, port)
		}
		return s
	}
	conf := fmt.Sprintf("%s/c%d.yaml", scratch, atomic.AddInt64(&sockSeq, 1))
	if err := os.WriteFile(conf, []byte("primary:\n"+list(w.bids)+"secondary:\n"+list(w.sids)), 0o600); err != nil {
		return err
	}
	cmd := exec.Command(bin, "-conf", conf)
	cmd.Stderr = os.Stderr
	if err := cmd.Start(); err != nil {
		return err
	}
	gone := make(chan struct{})
	go func() { cmd.Wait(); close(gone) }()
	w.stop = append(w.stop, func() { cmd.Process.Kill(); <-gone })
	var err error
	for i := 0; i < 500; i++ {
		var c net.Conn
		if c, err = net.Dial("tcp", "127.0.0.1:8090"); err == nil {
			c.Close()
			return w.routerClients("tcp", "127.0.0.1:8090")
		}
		select {
		case <-gone:
			return errors.New("the router command has ended")
		case <-time.After(20 * time.Millisecond):
		}
	}
	return err
}

func (w *world) routerClients(network, addr string) error {
	w.rcl = map[string]client.Server{}
	for _, p := range []string{"text", "meta", "binary"} {
		s, err := dialServer(p, "router", network, addr)
		if err != nil {
			return err
		}
		setTimeout(s, w.long)
		w.rcl[p] = s
	}
	raw, err := dialRaw(network, addr)
	if err != nil {
		return err
	}
	w.rcl["raw"] = raw
	return nil
}

// target is what a step's call is made on.
func (w *world) target(st *Step) interface{} {
	if w.rcl != nil && st.C != "" && st.C != "pool" {
		return w.rcl[st.C]
	}
	return w.tgt
}

// name gives the name under which a server is known to the pool.
func (w *world) name(id string) string {
	if n, ok := w.names[id]; ok {
		return n
	}
	return id
}

// collide gives the first two servers of each tier names that share a ring
// point, and aims some keys at it.
func (w *world) collide() {
	cs := collisions()
	j := 0
	for _, ids := range [][]string{w.bids, w.sids} {
		if len(ids) < 2 {
			continue
		}
		c := cs[w.rng.Intn(len(cs))]
		w.names[ids[0]], w.names[ids[1]] = c.a, c.b
		for d := uint32(0); d < 4; d++ {
			w.sc.Keys["q"+strconv.Itoa(j)] = keyFor("k"+strconv.Itoa(j), c.h+d)
			j++
		}
	}
}

// teardown ends everything without judging it.
func (w *world) teardown() {
	w.rec.Stop()
	for _, b := range w.bs {
		b.Shutdown()
	}
	for _, f := range w.stop {
		f()
	}
	for _, s := range w.rcl {
		w.srv = append(w.srv, s)
	}
	for _, s := range w.srv {
		s := s
		go func() {
			defer func() { recover() }()
			s.Close()
		}()
	}
}

// --- concretisation of symbols

func (w *world) key(sym string) string {
	if k, ok := w.sc.Keys[sym]; ok {
		return k
	}
	if k, ok := w.sc.KeysHex[sym]; ok {
		b, err := hex.DecodeString(k)
		if err != nil {
			panic(err)
		}
		return string(b)
	}
	var k string
	switch w.sc.KeySet {
	case "long":
		k = sym + strings.Repeat("L", 250-len(sym))
	case "odd":
		k = sym + string([]byte{0x21, 0x23, 0x7e, 0xc3, 0xa9, 0xff, 0x80}) + "%d{}"
	case "words":
		k = map[string]string{"a": "END", "b": "VALUE", "c": "noreply", "d": "STORED", "e": "EN", "f": "0"}[sym]
		if k == "" {
			k = "MN" + sym
		}
	case "meta":
		k = "fct" + sym + "kv"
	case "case": // differ in case only
		k = map[string]string{"a": "Key", "b": "key", "c": "KEY", "d": "kEY"}[sym]
		if k == "" {
			k = "keY" + sym
		}
	case "prefix": // begin alike
		k = map[string]string{"a": "k", "b": "kk", "c": "kkk", "d": "kkkk"}[sym]
		if k == "" {
			k = "k" + sym
		}
	case "num": // numbers
		k = map[string]string{"a": "1", "b": "01", "c": "-1", "d": "0", "e": "4294967296"}[sym]
		if k == "" {
			k = "1e" + sym
		}
	case "format": // look like something to be expanded
		k = "%" + sym + "%s%%d%!v(\\n'\"`${x}<&>;,*?[])"
	case "high": // bytes that mean something in Unicode or Latin-1 only
		k = "\x85" + sym + "\xa0\u2028\u00a0\u3000\xff\xfe\x81\x80" + sym
	case "one":
		k = sym
	default:
		k = "key_" + sym
	}
	w.sc.Keys[sym] = k
	return k
}

func (w *world) value(sym string) []byte {
	cut := func(p string) (int, bool) {
		if strings.HasPrefix(sym, p) {
			n, err := strconv.Atoi(sym[len(p):])
			return n, err == nil
		}
		return 0, false
	}
	switch {
	case sym == "" || sym == "u":
		w.uniq++
		return []byte("val." + strconv.FormatInt(w.uniq, 10))
	case sym == "e":
		return []byte{}
	case sym == "nil":
		return nil
	case sym == "crlf":
		w.uniq++
		return []byte("\r\nEND\r\nSTORED\r\n" + strconv.FormatInt(w.uniq, 10) + "\r\nEN\r\nMN\r\n")
	case sym == "reply":
		w.uniq++
		return []byte("VALUE key_a 0 1\r\nx\r\nEND\r\nHD\r\n" + strconv.FormatInt(w.uniq, 10))
	case sym == "bin":
		b := make([]byte, 300)
		for i := range b {
			b[i] = byte(i)
		}
		w.uniq++
		return append(b, []byte(strconv.FormatInt(w.uniq, 10))...)
	case sym == "magic":
		w.uniq++
		b := make([]byte, 24)
		b[0] = 0x81
		return append(b, []byte(strconv.FormatInt(w.uniq, 10))...)
	case sym == "max64":
		return []byte("18446744073709551615")
	case sym == "big63":
		return []byte("9223372036854775807")
	case sym == "spnum":
		return []byte("12  ")
	}
	if n, ok := cut("n"); ok {
		return []byte(strconv.Itoa(n))
	}
	if n, ok := cut("len"); ok {
		b := make([]byte, n)
		w.uniq++
		x := uint32(w.uniq*2654435761 + int64(n))
		for i := range b {
			x = x*1664525 + 1013904223
			b[i] = byte(x >> 24)
		}
		return b
	}
	return []byte(sym)
}

func flagBytes(sym string) []byte {
	switch sym {
	case "", "nil":
		return nil
	case "empty":
		return []byte{}
	case "short":
		return []byte{7}
	case "long5":
		return []byte{1, 2, 3, 4, 5}
	}
	n, err := strconv.ParseUint(sym, 16, 32)
	if err != nil {
		panic("flag symbol " + sym)
	}
	b := make([]byte, 4)
	binary.BigEndian.PutUint32(b, uint32(n))
	return b
}

func flagHex(b []byte) string {
	if len(b) == 0 {
		return "00000000"
	}
	if len(b) != 4 {
		return "len" + strconv.Itoa(len(b))
	}
	return hex32(binary.BigEndian.Uint32(b))
}

func sentFlag(b []byte) string {
	if len(b) != 4 {
		return "00000000" // anything that is not a 4-byte field means no flags
	}
	return flagHex(b)
}

func casStr(c uint64) string {
	if c == 0 {
		return ""
	}
	return strconv.FormatUint(c, 10)
}

func class(err error) string {
	if err == nil {
		return "ok"
	}
	if err == error(merrors.ItemNotFound) {
		return "nf"
	}
	if err == error(merrors.ItemExists) {
		return "ex"
	}
	return "err"
}

func (w *world) itemEv(it *client.Item) Ev {
	if it == nil {
		return Ev{"k": "<nil>", "v": "", "f": "", "c": "", "tk": "rel", "t": 0, "s": ""}
	}
	tk, t := normExp(int64(it.Expiration), w.base)
	return Ev{"k": enc([]byte(it.Key)), "v": enc(it.Value), "f": flagHex(it.Flags), "c": casStr(it.Cas), "tk": tk, "t": clamp(t), "s": w.from(it.Server)}
}

// from is the backend an item says it came from; "*" stands for the router.
func (w *world) from(name string) string {
	if w.rcl != nil && (name == "router" || name == "") { // the hand-made client leaves it empty
		return "*"
	}
	for _, ids := range [][]string{w.bids, w.sids} {
		for _, id := range ids {
			if w.name(id) == name {
				return id
			}
		}
	}
	return "?" + enc([]byte(name))
}

func copyItem(it *client.Item) client.Item {
	c := *it
	c.Value = append([]byte(nil), it.Value...)
	c.Flags = append([]byte(nil), it.Flags...)
	c.Key = strings.Clone(it.Key)
	c.Server = strings.Clone(it.Server)
	return c
}

func sameItem(a, b *client.Item) bool {
	return a.Key == b.Key && bytes.Equal(a.Value, b.Value) && bytes.Equal(a.Flags, b.Flags) &&
		a.Expiration == b.Expiration && a.Cas == b.Cas && a.Server == b.Server
}

// call runs f with a watchdog. It returns "" or "panic"/"hang".
func guarded(limit time.Duration, f func()) (string, string) {
	done := make(chan string, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				done <- "panic:" + fmt.Sprint(r)
			}
		}()
		f()
		done <- ""
	}()
	t := time.NewTimer(limit)
	defer t.Stop()
	select {
	case m := <-done:
		if strings.HasPrefix(m, "panic:") {
			return "panic", m[6:]
		}
		return "", ""
	case <-t.C:
		atomic.AddInt64(&hangs, 1)
		return "hang", ""
	}
}

// exp gives the raw expiration of a step.
func (w *world) exp(st *Step) int {
	if st.XA {
		return int(w.base) + st.X
	}
	return st.X
}

// prepared is a call ready to be issued.
type prepared struct {
	ev   Ev
	run  func() Ev // performs the call, returns the result event
	post func(Ev)
	op   string
}

// prepare makes a step concrete. The returned call event carries everything
// the specification needs to know about the call.
func (w *world) prepare(st *Step, i int) *prepared {
	k := ""
	if st.K != "" {
		k = w.key(st.K)
	}
	x := w.exp(st)
	xk, xn := normExp(int64(x), w.base)
	short := st.Fault != nil
	ev := Ev{"e": "call", "i": i, "op": st.Op, "k": enc([]byte(k)), "ks": []string{}, "v": "", "f": "00000000", "xk": xk, "x": clamp(xn),
		"d": strconv.FormatInt(st.D, 10), "cas": "", "short": short, "bad": badKey(k, w.sc.Proto), "restore": false, "c": st.C, "p": w.sc.Proto}
	switch st.Op {
	case "getm", "flush", "version", "close", "reconnect":
		ev["bad"] = false
	}
	if w.rcl != nil {
		if st.C == "" {
			ev["c"] = "pool"
		} else if st.C != "pool" {
			ev["p"] = st.C
			if st.C == "raw" {
				ev["p"] = "meta"
			}
		}
	}
	res := func(err error) Ev {
		e := Ev{"e": "ret", "i": i, "r": class(err), "items": []Ev{}, "n": "", "ver": "", "vers": []Ev{}, "mut": false, "msg": "", "late": false}
		if err != nil {
			m := err.Error()
			if len(m) > 120 {
				m = m[:120]
			}
			e["msg"] = enc([]byte(m))
		}
		return e
	}
	p := &prepared{ev: ev, op: st.Op}
	t := w.target(st)
	hold := func(it *client.Item) {
		if it != nil {
			w.keep = append(w.keep, kept{it, copyItem(it)})
			w.obs[it.Key] = append(w.obs[it.Key], it.Cas)
			w.last[it.Key] = it
		}
	}
	switch st.Op {
	case "get":
		var out *client.Item
		p.run = func() Ev {
			it, err := t.(api).Get(k)
			e := res(err)
			if err == nil {
				e["items"] = []Ev{w.itemEv(it)}
				out = it
			} else if it != nil {
				e["extra"] = true
			}
			return e
		}
		p.post = func(Ev) { hold(out) }
	case "getm":
		keys := []string{}
		for _, s := range st.Ks {
			keys = append(keys, w.key(s))
		}
		names := []string{}
		for _, s := range keys {
			names = append(names, enc([]byte(s)))
			if badKey(s, w.sc.Proto) {
				ev["bad"] = true
			}
		}
		if len(keys) > 0 {
			ev["k"] = names[0]
		} else {
			ev["bad"] = true
		}
		ev["ks"] = names
		var out []*client.Item
		arg := append([]string(nil), keys...)
		same := func() bool {
			for j := range arg {
				if arg[j] != keys[j] {
					return false
				}
			}
			return true
		}
		p.run = func() Ev {
			var its []*client.Item
			var err error
			alone := w.fly(same, func() { its, err = t.(api).GetMulti(arg...) })
			e := res(err)
			if !alone {
				e["mut"] = true
			}
			if err == nil {
				l := []Ev{}
				for _, it := range its {
					l = append(l, w.itemEv(it))
				}
				e["items"] = l
				out = its
			}
			return e
		}
		p.post = func(Ev) {
			for _, it := range out {
				hold(it)
			}
		}
	case "set", "add", "replace", "restore":
		v := w.value(st.V)
		fl := flagBytes(st.F)
		var cas uint64
		if st.Op == "restore" {
			ev["op"] = "set"
			ev["restore"] = true
			if it := w.last[k]; it != nil {
				v, fl, x = it.Value, it.Flags, it.Expiration
				xk, xn := normExp(int64(x), w.base)
				ev["xk"], ev["x"] = xk, clamp(xn)
			} else {
				ev["restore"] = false
			}
		}
		switch st.Cas {
		case "obs":
			if o := w.obs[k]; len(o) > 0 {
				cas = o[len(o)-1]
			} else {
				cas = 987654321
			}
		case "old":
			if o := w.obs[k]; len(o) > 0 {
				cas = o[0]
			} else {
				cas = 987654321
			}
		case "bogus":
			cas = 18446744073709551557
		}
		ev["v"], ev["f"], ev["cas"] = enc(v), sentFlag(fl), casStr(cas)
		// spare capacity behind the value shows writes beyond its end
		back := make([]byte, len(v)+16)
		copy(back, v)
		for j := len(v); j < len(back); j++ {
			back[j] = 0xEE
		}
		val := back[:len(v)]
		var fback []byte
		if fl != nil {
			fback = make([]byte, len(fl)+4)
			copy(fback, fl)
			for j := len(fl); j < len(fback); j++ {
				fback[j] = 0xEE
			}
		}
		it := &client.Item{Key: k, Value: val, Expiration: x, Cas: cas, Server: "mine"}
		if v == nil {
			it.Value = nil
		}
		if fl != nil {
			it.Flags = fback[:len(fl)]
		}
		before := copyItem(it)
		bb, bf := append([]byte(nil), back...), append([]byte(nil), fback...)
		op := st.Op
		same := func() bool {
			return sameItem(it, &before) && bytes.Equal(back, bb) && bytes.Equal(fback, bf) && (v == nil) == (it.Value == nil)
		}
		if st.Sh != "" {
			// the same item for several calls
			if a := w.shared[st.Sh]; a != nil {
				it, before, same = a.it, a.before, a.same
				ev["v"], ev["f"], ev["cas"] = enc(before.Value), sentFlag(before.Flags), casStr(before.Cas)
			} else {
				w.shared[st.Sh] = &arg{it, before, same}
			}
		}
		p.run = func() Ev {
			var err error
			alone := w.fly(same, func() {
				switch op {
				case "set", "restore":
					err = t.(api).Set(it)
				case "add":
					err = t.(api).Add(it)
				case "replace":
					err = t.(api).Replace(it)
				}
			})
			e := res(err)
			if !alone {
				e["mut"] = true
			}
			return e
		}
	case "delete":
		p.run = func() Ev { return res(t.(api).Delete(k)) }
	case "incr", "decr":
		p.run = func() Ev {
			var n int64
			var err error
			if st.Op == "incr" {
				n, err = t.(api).Increment(k, int(st.D), x)
			} else {
				n, err = t.(api).Decrement(k, int(st.D), x)
			}
			e := res(err)
			if err == nil {
				e["n"] = strconv.FormatInt(n, 10)
			}
			return e
		}
	case "touch":
		p.run = func() Ev { return res(t.(toucher).Touch(k, x)) }
	case "flush":
		p.run = func() Ev { return res(t.(toucher).Flush()) }
	case "version":
		p.run = func() Ev {
			if m, ok := t.(mversioner); ok {
				v, err := m.Version()
				e := res(err)
				if err == nil {
					l := []Ev{}
					for n, s := range v {
						for id, name := range w.names {
							if name == n {
								n = id
								break
							}
						}
						l = append(l, Ev{"s": n, "v": s})
					}
					e["vers"] = l
				}
				return e
			}
			v, err := t.(versioner).Version()
			e := res(err)
			if err == nil {
				e["ver"] = enc([]byte(v))
			}
			return e
		}
	case "close":
		p.run = func() Ev { return res(t.(toucher).Close()) }
	case "reconnect":
		p.run = func() Ev { return res(t.(reconnecter).Reconnect()) }
	default:
		panic("unknown op " + st.Op)
	}
	return p
}

// badKey says whether the protocol has no way to carry the key.
func badKey(k, proto string) bool {
	if len(k) == 0 || len(k) > 250 {
		return true
	}
	if proto == "binary" {
		return false
	}
	for i := 0; i < len(k); i++ {
		if k[i] <= 0x20 || k[i] == 0x7f {
			return true
		}
	}
	return false
}

func (w *world) runCall(st *Step) bool {
	i := w.ncal
	w.ncal++
	p := w.prepare(st, i)
	var fbs []*Backend
	if st.Fault != nil {
		to := w.sc.Timeout
		if to == 0 {
			to = 40
		}
		if st.Fault.Kind == "stall" || st.Fault.Kind == "noread" {
			for _, s := range w.srv {
				setTimeout(s, time.Duration(to)*time.Millisecond)
			}
		}
		for _, id := range w.sel(st.B) {
			f := *st.Fault
			fbs = append(fbs, w.bs[id])
			w.bs[id].Arm(&f)
		}
	}
	p.ev["t"] = "main"
	w.rec.Add(p.ev)
	var ret Ev
	start := time.Now()
	what, msg := guarded(hangLimit, func() { ret = p.run() })
	dur := time.Since(start)
	if what != "" {
		ret = deadRet(i, what, msg)
		ret["t"] = "main"
		w.rec.Add(ret)
		if what == "hang" {
			w.hung = true
			return false
		}
		// a panic may leave the connection's lock held
		return false
	}
	ret["t"] = "main"
	late := 2 * time.Second
	if l := w.sc.Opt["late"]; l > 0 {
		late = time.Duration(l) * time.Millisecond
	}
	if (st.Fault != nil || w.sc.Opt["late"] > 0) && dur > late {
		ret["late"] = true
	}
	w.rec.Add(ret)
	if dur > slowCall {
		atomic.AddInt64(&slows, 1)
		return false
	}
	if p.post != nil {
		p.post(ret)
	}
	if len(fbs) > 0 {
		for _, fb := range fbs {
			fb.Disarm()
		}
		if st.Fault.Kind == "stall" || st.Fault.Kind == "noread" {
			for _, fb := range fbs {
				fb.Release()
			}
			time.Sleep(time.Millisecond)
			for _, s := range w.srv {
				setTimeout(s, w.long)
			}
		}
	}
	return true
}

// ext performs a write as another client of the backend would.
func (w *world) ext(st *Step) {
	q := &req{op: strings.TrimPrefix(st.Op, "x"), k: w.key(st.K)}
	switch q.op {
	case "set", "add", "replace":
		q.v = w.value(st.V)
		if q.v == nil {
			q.v = []byte{}
		}
		if f := flagBytes(st.F); len(f) == 4 {
			q.f = binary.BigEndian.Uint32(f)
		}
		q.x = int64(w.exp(st))
	case "touch":
		q.x = int64(w.exp(st))
	case "incr", "decr":
		q.d = uint64(st.D)
	}
	for _, id := range w.sel(st.B) {
		q := *q
		w.rec.Add(Ev{"e": "ext", "b": id})
		w.bs[id].exec(0, &q)
	}
}

func (w *world) step(st *Step) bool {
	switch st.Op {
	case "tick":
		n := st.N
		if n == 0 {
			n = 1
		}
		first := true
		for _, b := range w.bs {
			b.mu.Lock()
			b.now += n
			if first {
				w.rec.Add(Ev{"e": "tick", "n": n})
				first = false
			}
			b.mu.Unlock()
		}
	case "drop":
		for _, id := range w.sel(st.B) {
			w.bs[id].Drop()
		}
		time.Sleep(time.Millisecond)
	case "down":
		w.bs[w.bid(st)].Down()
		time.Sleep(time.Millisecond)
	case "up":
		if err := w.bs[w.bid(st)].Up(); err != nil {
			w.rec.Add(Ev{"e": "harness", "msg": err.Error()})
			return false
		}
	case "jam":
		if err := w.bs[w.bid(st)].Jam(); err != nil {
			w.rec.Add(Ev{"e": "harness", "msg": err.Error()})
			return false
		}
	case "unjam":
		w.bs[w.bid(st)].Unjam()
	case "sreconnect", "sclose":
		// operations on single servers of a pool
		for _, id := range w.sel(st.B) {
			s, op, r := w.byID[id], st.Op, ""
			what, _ := guarded(hangLimit, func() {
				if op == "sclose" {
					r = class(s.(interface{ Close() error }).Close())
				} else {
					r = class(s.(reconnecter).Reconnect())
				}
			})
			if what != "" {
				return false
			}
			if op == "sclose" {
				w.rec.Add(Ev{"e": "sclose", "b": id, "r": r})
			} else {
				w.rec.Add(Ev{"e": "srec", "b": id, "r": r})
			}
		}
	case "reconnect":
		if w.rcl == nil {
			return w.runCall(st)
		}
		r := ""
		if what, _ := guarded(hangLimit, func() { r = class(w.rcl[st.C].(reconnecter).Reconnect()) }); what != "" {
			r = what
		}
		w.rec.Add(Ev{"e": "crec", "c": st.C, "r": r})
		return r == "ok"
	case "rebuild":
		if err := w.pool(); err != nil {
			w.rec.Add(Ev{"e": "harness", "msg": err.Error()})
			return false
		}
	case "calm":
		return w.calm()
	case "stall":
		w.stallAll(true)
	case "resume":
		w.stallAll(false)
	case "await":
		w.await(st)
	case "quiet":
		w.quiet()
	case "idle":
		time.Sleep(time.Duration(st.N) * time.Millisecond)
	case "xset", "xadd", "xreplace", "xdelete", "xincr", "xdecr", "xtouch", "xflush":
		w.ext(st)
	case "conns":
		for _, id := range w.sel(st.B) {
			w.connsEvent(id, int(st.N))
		}
	default:
		return w.runCall(st)
	}
	return true
}

// sel resolves a backend selector.
func (w *world) sel(b string) []string {
	switch b {
	case "":
		return w.bids[:1]
	case "p*":
		return w.bids
	case "s*":
		return w.sids
	}
	if w.bs[b] == nil { // the model has more servers than this scenario
		l := w.bids
		if b[0] == 's' && len(w.sids) > 0 {
			l = w.sids
		}
		return l[:1]
	}
	return []string{b}
}

func (w *world) bid(st *Step) string { return w.sel(st.B)[0] }

// connsEvent reports how many connections the backend still has, after
// giving closed sockets time to be noticed and dialled ones to be accepted.
func (w *world) connsEvent(id string, want int) {
	b := w.bs[id]
	n := b.OpenConns()
	for i := 0; i < 1000 && n > want || i < 250 && n < want; i++ {
		time.Sleep(2 * time.Millisecond)
		n = b.OpenConns()
	}
	w.rec.Add(Ev{"e": "conns", "b": id, "n": n})
}

func (w *world) recheck() {
	ok := true
	for _, k := range w.keep {
		if !sameItem(k.it, &k.copy) {
			ok = false
		}
	}
	w.rec.Add(Ev{"e": "recheck", "ok": ok})
}

func runScenario(sc *Scenario) (tr *Trace) {
	w, err := newWorld(sc)
	if err != nil {
		return &Trace{ID: sc.ID, Proto: sc.Proto, Target: sc.Target, Protos: map[string]string{}, Bs: []string{}, Ss: []string{}, Ev: []Ev{{"e": "harness", "msg": err.Error()}}}
	}
	defer w.teardown()
	tr = &Trace{ID: sc.ID, Proto: sc.Proto, Target: sc.Target, Bs: w.bids, Ss: w.sids}
	if tr.Ss == nil {
		tr.Ss = []string{}
	}
	tr.Protos = w.prot
	tr.HB = sc.Opt["hb"]+sc.Opt["real"] > 0
	tr.Auto = sc.Opt["auto"] > 0
	for _, b := range w.bs {
		b.verbose = tr.HB
		if d := sc.Opt["delay"]; d > 0 {
			b.delayFn = func() time.Duration { return time.Duration(rand.Intn(d)) * time.Microsecond }
		}
		if d := sc.Opt["exact"]; d > 0 {
			b.delayFn = func() time.Duration { return time.Duration(d) * time.Microsecond }
		}
	}
	if err := w.connect(w.heartbeatOpts()...); err != nil {
		w.rec.Add(Ev{"e": "harness", "msg": err.Error()})
		tr.Ev = w.rec.ev
		return tr
	}
	if t := sc.Opt["timeout"]; t != 0 {
		// a negative one: no Timeout at all
		if t < 0 {
			t = 0
		}
		w.long = time.Duration(t) * time.Millisecond
		for _, s := range w.srv {
			setTimeout(s, w.long)
		}
	}
	alive := true
	for i := range sc.Steps {
		if !w.step(&sc.Steps[i]) {
			alive = false
			break
		}
	}
	if alive && len(sc.Threads) > 0 {
		alive = w.runThreads()
		w.long = longTimeout
		for i := range sc.After {
			if alive && !w.step(&sc.After[i]) {
				alive = false
			}
		}
	}
	if alive && sc.Probe {
		syms := []string{}
		for _, s := range []string{"a", "b", "c", "d"} {
			if _, ok := sc.Keys[s]; ok && !badKey(sc.Keys[s], sc.Proto) {
				syms = append(syms, s)
			}
		}
		for _, s := range syms {
			if alive {
				alive = w.runCall(&Step{Op: "get", K: s})
			}
		}
		if alive && len(syms) > 0 {
			alive = w.runCall(&Step{Op: "getm", Ks: syms})
		}
		if alive {
			if _, ok := w.tgt.(versioner); ok {
				alive = w.runCall(&Step{Op: "version"})
			}
		}
	}
	w.recheck()
	w.rec.Stop()
	tr.Ev = w.rec.ev
	return tr
}

var _ net.Conn
