package main

import (
	"bytes"
	"math/rand"
	"runtime/pprof"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"go.f110.dev/go-memcached/client"
)

// heartbeatOpts are the options of a scenario that watches its connection.
func (w *world) heartbeatOpts() []client.ServerOpt {
	opts := []client.ServerOpt{}
	if ms := w.sc.Opt["hb"]; ms > 0 {
		opts = append(opts, func(o *client.ServerOption) { o.HeartbeatInterval = time.Duration(ms) * time.Millisecond })
	}
	if w.sc.Opt["real"] > 0 {
		opts = append(opts, client.EnableHeartbeat)
	}
	if w.sc.Opt["auto"] > 0 {
		opts = append(opts, client.EnableAutoReconnect)
	}
	return opts
}

func (w *world) interval() time.Duration {
	if w.sc.Opt["real"] > 0 {
		return time.Second
	}
	return time.Duration(w.sc.Opt["hb"]) * time.Millisecond
}

// hold makes the backend stop answering until resume.
func (w *world) stallAll(on bool) {
	for id, b := range w.bs {
		b.mu.Lock()
		if on && b.held == nil {
			b.held = make(chan struct{})
			w.rec.Add(Ev{"e": "fault", "b": id, "kind": "hold"})
		} else if !on && b.held != nil {
			close(b.held)
			b.held = nil
			w.rec.Add(Ev{"e": "resume", "b": id})
		}
		b.mu.Unlock()
	}
}

// runThreads runs the threads of a scenario concurrently. The calls are begun
// in the order the scenario gives (Order), or freely if it gives none. The
// thread "env" disturbs.
func (w *world) runThreads() bool {
	var mu sync.Mutex // what prepare and post touch
	var wg sync.WaitGroup
	var dead, healed int32
	var good int64
	pos := int64(0)
	turn := make([][]int64, len(w.sc.Threads))
	for i, t := range w.sc.Order {
		turn[t] = append(turn[t], int64(i))
	}
	limit := time.Duration(w.sc.Opt["late"]) * time.Millisecond
	for ti := range w.sc.Threads {
		ti := ti
		rng := rand.New(rand.NewSource(w.rng.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for si := 0; si < len(w.sc.Threads[ti]); si++ {
				st := &w.sc.Threads[ti][si]
				spin := st.Op == "spin"
				if spin {
					// a caller who calls again and again until the connection works
					if atomic.LoadInt32(&healed) > 0 {
						continue
					}
					st = &Step{Op: "get", K: st.K}
					time.Sleep(w.interval() / 5)
				}
				if si < len(turn[ti]) {
					for n := 0; atomic.LoadInt64(&pos) < turn[ti][si] && n < 20000; n++ {
						time.Sleep(20 * time.Microsecond)
					}
					atomic.AddInt64(&pos, 1)
				}
				if j := w.sc.Opt["jitter"]; j > 0 {
					time.Sleep(time.Duration(rng.Intn(j)) * time.Microsecond)
				}
				if atomic.LoadInt32(&dead) > 0 {
					return
				}
				switch st.Op {
				case "stall":
					w.stallAll(true)
					continue
				case "resume":
					w.stallAll(false)
					continue
				case "heal":
					from := atomic.LoadInt64(&good)
					ok := false
					for end := time.Now().Add(5*time.Second + 10*w.interval()); !ok && time.Now().Before(end); time.Sleep(time.Millisecond) {
						ok = atomic.LoadInt64(&good) > from+5
					}
					w.rec.Add(Ev{"e": "await", "ok": ok, "conns": 0, "beats": 0})
					if si == len(w.sc.Threads[ti])-1 || !ok {
						atomic.StoreInt32(&healed, 1)
					}
					continue
				case "drop", "down", "up", "idle", "jam", "unjam":
					if !w.step(st) {
						atomic.StoreInt32(&dead, 1)
					}
					continue
				}
				mu.Lock()
				i := w.ncal
				w.ncal++
				p := w.prepare(st, i)
				mu.Unlock()
				name := "t" + strconv.Itoa(ti)
				p.ev["t"] = name
				w.rec.Add(p.ev)
				var ret Ev
				start := time.Now()
				what, msg := guarded(hangLimit, func() { ret = p.run() })
				dur := time.Since(start)
				if what != "" {
					ret = deadRet(i, what, msg)
					ret["t"] = name
					w.rec.Add(ret)
					atomic.StoreInt32(&dead, 1)
					return
				}
				ret["t"] = name
				if limit > 0 && dur > limit {
					ret["late"] = true
				}
				w.rec.Add(ret)
				if spin {
					if ret["r"] == "ok" {
						atomic.AddInt64(&good, 1)
					}
					si-- // once more
				}
				if p.post != nil {
					mu.Lock()
					p.post(ret)
					mu.Unlock()
				}
				if dur > slowCall {
					atomic.AddInt64(&slows, 1)
				}
			}
		}()
	}
	wg.Wait()
	w.stallAll(false)
	return atomic.LoadInt32(&dead) == 0
}

func deadRet(i int, what, msg string) Ev {
	return Ev{"e": "ret", "i": i, "r": what, "items": []Ev{}, "n": "", "ver": "", "vers": []Ev{}, "mut": false, "msg": enc([]byte(msg)), "late": false}
}

// calm ends the disturbances: all backends can be reached and every
// connection is renewed.
func (w *world) calm() bool {
	w.stallAll(false)
	for _, b := range w.bs {
		b.mu.Lock()
		up := b.ln != nil
		b.mu.Unlock()
		if !up {
			if err := b.Up(); err != nil {
				w.rec.Add(Ev{"e": "harness", "msg": err.Error()})
				return false
			}
		}
	}
	ok := true
	for id, s := range w.byID {
		r := ""
		if what, _ := guarded(hangLimit, func() { r = class(s.(reconnecter).Reconnect()) }); what != "" {
			r = what
		}
		if r != "ok" {
			ok = false
		}
		_ = id
	}
	for _, s := range w.srv {
		setTimeout(s, w.long)
	}
	w.rec.Add(Ev{"e": "calm", "ok": ok})
	return true
}

// heartbeats seen since `from` events were recorded (on one of the connections
// that are open now, if alive is set), and connections made.
func (w *world) since(from int, alive map[int]bool) (beats, accepts int) {
	w.rec.mu.Lock()
	defer w.rec.mu.Unlock()
	for _, e := range w.rec.ev[from:] {
		switch e["e"] {
		case "exec":
			if c, _ := e["c"].(int); e["op"] == "version" && (alive == nil || alive[c]) {
				beats++
			}
		case "accept":
			accepts++
		}
	}
	return
}

// afterglow counts the goroutines the connections of this scenario still have.
func (w *world) afterglow() int {
	var buf bytes.Buffer
	if err := pprof.Lookup("goroutine").WriteTo(&buf, 1); err != nil {
		return -1
	}
	n := 0
	for _, g := range strings.Split(buf.String(), "\n\n") {
		i := strings.Index(g, " @ ")
		if i < 0 || !strings.Contains(g, strconv.Quote("scenario")+":"+strconv.Quote(w.sc.ID)) || !strings.Contains(g, "go-memcached/client.") {
			continue
		}
		f := strings.Fields(g[:i])
		k, _ := strconv.Atoi(f[len(f)-1])
		n += k
	}
	return n
}

func (w *world) events() int {
	w.rec.mu.Lock()
	defer w.rec.mu.Unlock()
	return len(w.rec.ev)
}

// await gives the heartbeat time to notice and to repair what happened.
func (w *world) await(st *Step) {
	b := w.bs[w.bids[0]]
	from := w.events()
	broken, auto := st.N > 0, w.sc.Opt["auto"] > 0
	ok := false
	beats, conns := 0, 0
	for end := time.Now().Add(5*time.Second + 10*w.interval()); time.Now().Before(end); time.Sleep(2 * time.Millisecond) {
		open := b.openIDs()
		conns = len(open)
		beats, _ = w.since(from, open)
		if broken && !auto {
			ok = conns == 0
		} else {
			ok = conns == 1 && beats > 1
		}
		if ok {
			break
		}
	}
	if broken && !auto && ok {
		// the link is gone; the heartbeat comes, notices and closes
		time.Sleep(w.interval()*3 + 20*time.Millisecond)
	}
	w.rec.Add(Ev{"e": "await", "ok": ok, "conns": conns, "beats": beats})
}

// quiet looks whether there is any life after Close.
func (w *world) quiet() {
	b := w.bs[w.bids[0]]
	time.Sleep(w.interval() + 30*time.Millisecond)
	from := w.events()
	time.Sleep(w.interval()*6 + 20*time.Millisecond)
	beats, accepts := w.since(from, nil)
	left := w.afterglow()
	for i := 0; i < 20 && left > 0; i++ {
		time.Sleep(w.interval() + 20*time.Millisecond)
		left = w.afterglow()
	}
	w.rec.Add(Ev{"e": "quiet", "beats": beats, "accepts": accepts, "conns": b.OpenConns(), "left": left})
}
