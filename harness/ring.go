package main

import (
	"crypto/sha1"
	"encoding/binary"
	"fmt"
	"hash/crc32"
	"hash/fnv"
	"math/rand"
	"sort"
	"strconv"
	"strings"
	"sync"

	"go.f110.dev/go-memcached/client"
)

// Placement of keys: rings and pools are built from stub servers that only
// note which of them was asked. The keys are chosen to fall exactly on, just
// before and just behind the points of the ring (CRC32 is easy to invert).

// stub is a server that records the calls it gets.
type stub struct {
	client.Server // nil: whatever is not overridden panics
	name          string
	hit           func(key string)
}

func (s *stub) Name() string                                { return s.name }
func (s *stub) Close() error                                { return nil }
func (s *stub) Get(k string) (*client.Item, error)          { s.hit(k); return &client.Item{Key: k}, nil }
func (s *stub) Set(i *client.Item) error                    { s.hit(i.Key); return nil }
func (s *stub) Add(i *client.Item) error                    { s.hit(i.Key); return nil }
func (s *stub) Replace(i *client.Item) error                { s.hit(i.Key); return nil }
func (s *stub) Delete(k string) error                       { s.hit(k); return nil }
func (s *stub) Increment(k string, a, b int) (int64, error) { s.hit(k); return 1, nil }
func (s *stub) Decrement(k string, a, b int) (int64, error) { s.hit(k); return 1, nil }
func (s *stub) Touch(k string, x int) error                 { s.hit(k); return nil }
func (s *stub) Flush() error                                { return nil }
func (s *stub) Version() (string, error)                    { return "1", nil }
func (s *stub) Reconnect() error                            { return nil }
func (s *stub) GetMulti(ks ...string) ([]*client.Item, error) {
	var r []*client.Item
	for _, k := range ks {
		s.hit(k)
		r = append(r, &client.Item{Key: k})
	}
	return r, nil
}

var crcRev [256]byte

func init() {
	for i := 0; i < 256; i++ {
		crcRev[crc32.IEEETable[i]>>24] = byte(i)
	}
}

// keyFor gives a legal key that starts with prefix and has the CRC32 h.
func keyFor(prefix string, h uint32) string {
	for n := 0; ; n++ {
		p := prefix
		if n > 0 {
			p += strconv.Itoa(n)
		}
		cur := crc32.ChecksumIEEE([]byte(p)) ^ 0xffffffff
		want := h ^ 0xffffffff
		for i := 0; i < 4; i++ {
			idx := crcRev[want>>24]
			want = (want^crc32.IEEETable[idx])<<8 | uint32(idx)
		}
		want ^= cur
		var b [4]byte
		binary.LittleEndian.PutUint32(b[:], want)
		ok := true
		for _, c := range b {
			if c <= 0x20 || c == 0x7f {
				ok = false
			}
		}
		if ok {
			k := p + string(b[:])
			if crc32.ChecksumIEEE([]byte(k)) != h {
				panic("crc inversion is wrong")
			}
			return k
		}
	}
}

func points(name string) []uint32 {
	r := make([]uint32, 200)
	for i := range r {
		s := sha1.Sum([]byte(name + "/" + strconv.Itoa(i)))
		r[i] = binary.BigEndian.Uint32(s[:4])
	}
	return r
}

type collision struct {
	a, b string
	h    uint32
}

var collOnce sync.Once
var colls []collision

// collisions finds pairs of server names that share a point of the ring.
func collisions() []collision {
	collOnce.Do(func() {
		type pt struct {
			h uint32
			n int32
		}
		const n = 2500
		ps := make([]pt, 0, n*200)
		for i := 0; i < n; i++ {
			for _, h := range points(fmt.Sprintf("cache%04d:11211", i)) {
				ps = append(ps, pt{h, int32(i)})
			}
		}
		sort.Slice(ps, func(i, j int) bool { return ps[i].h < ps[j].h || ps[i].h == ps[j].h && ps[i].n < ps[j].n })
		for i := 1; i < len(ps); i++ {
			if ps[i].h == ps[i-1].h && ps[i].n != ps[i-1].n {
				colls = append(colls, collision{fmt.Sprintf("cache%04d:11211", ps[i-1].n), fmt.Sprintf("cache%04d:11211", ps[i].n), ps[i].h})
			}
		}
	})
	return colls
}

// A placement event lists, per key, the index (from 1) of the server that was
// asked: 0 nobody, -1 several, -2 panic.
var ringOps = []string{"get", "set", "cas", "add", "replace", "delete", "incr", "decr", "touch", "getm"}

// runRing: `N` servers; Opt: "coll" pairs of colliding names, "pts" ring
// points to aim at, "perm" orders per set, "steps" changes of the membership.
func runRing(sc *Scenario) *Trace {
	if sc.Opt["share"] > 0 {
		return runShare(sc)
	}
	hs := fnv.New64a()
	hs.Write([]byte(sc.ID))
	rng := rand.New(rand.NewSource(int64(hs.Sum64()) ^ sc.Seed))
	opt := func(k string, d int) int {
		if v, ok := sc.Opt[k]; ok {
			return v
		}
		return d
	}
	// the names: some that collide, some of every style
	var names []string
	seen := map[string]bool{}
	add := func(n string) {
		if !seen[n] {
			seen[n] = true
			names = append(names, n)
		}
	}
	var aims []uint32
	cs := collisions()
	for i := 0; i < opt("coll", 2); i++ {
		c := cs[rng.Intn(len(cs))]
		add(c.a)
		add(c.b)
		aims = append(aims, c.h)
	}
	style := rng.Intn(5)
	for i := 0; len(names) < opt("names", 8); i++ {
		switch style {
		case 0:
			add(fmt.Sprintf("10.0.0.%d:11211", i))
		case 1:
			add(strings.Repeat("s", i))
		case 2:
			add(fmt.Sprintf("s/%d/%d", i/3, i))
		case 3:
			add(string(rune('a'+i%26)) + strings.Repeat("x", i/26))
		default:
			add(fmt.Sprintf("é%c%d\n", 0xC0+i, rng.Intn(1000)))
		}
	}
	idx := map[string]int{}
	for i, n := range names {
		idx[n] = i + 1
	}
	// the keys
	var all []uint32
	for _, n := range names {
		all = append(all, points(n)...)
	}
	sort.Slice(all, func(i, j int) bool { return all[i] < all[j] })
	aims = append(aims, 0, 1, 0xffffffff, 0x7fffffff, 0x80000000, all[0], all[len(all)-1])
	for i := 0; i < opt("pts", 80); i++ {
		aims = append(aims, all[rng.Intn(len(all))])
	}
	var keys []string
	ks := map[string]bool{}
	key := func(k string) {
		if !ks[k] {
			ks[k] = true
			keys = append(keys, k)
		}
	}
	for _, h := range aims {
		for d := uint32(0xffffffff); d != 2; d++ { // -1, 0, 1
			key(keyFor("k", h+d))
		}
		if rng.Intn(4) == 0 {
			key(keyFor(strings.Repeat("q", rng.Intn(240)), h))
		}
	}
	for _, h := range aims[:opt("coll", 2)] { // the whole arc behind a shared point
		i := sort.Search(len(all), func(i int) bool { return all[i] > h })
		if i < len(all) {
			key(keyFor("m", h+(all[i]-h)/2))
			key(keyFor("m", all[i]-1))
		}
	}
	for i := 0; i < opt("rnd", 150); i++ {
		key(fmt.Sprintf("user:%d", rng.Intn(1<<30)))
	}
	key("")
	key("x")
	key(strings.Repeat("z", 250))
	key(strings.Repeat("y", 3000))
	key("a b\r\n\x00")
	var evs []Ev
	place := func(op string, set []string) {
		own := make([]int, len(keys))
		var mu sync.Mutex
		pos := map[string]int{}
		for i, k := range keys {
			pos[k] = i
		}
		servers := make([]client.Server, len(set))
		for i, n := range set {
			n := n
			servers[i] = &stub{name: n, hit: func(k string) {
				mu.Lock()
				p, ok := pos[k]
				switch {
				case !ok:
				case own[p] == 0:
					own[p] = idx[n]
				default:
					own[p] = -1
				}
				mu.Unlock()
			}}
		}
		order := rng.Perm(len(keys))
		safe := func(i int, f func()) {
			defer func() {
				if recover() != nil {
					mu.Lock()
					own[i] = -2
					mu.Unlock()
				}
			}()
			f()
		}
		switch op {
		case "pick", "conc":
			var r *client.Ring
			safe(0, func() { r = client.NewRing(servers...) })
			one := func(i int) {
				safe(i, func() {
					n := r.Pick(keys[i]).Name()
					mu.Lock()
					own[i] = idx[n]
					mu.Unlock()
				})
			}
			if op == "pick" {
				for _, i := range order {
					one(i)
				}
				break
			}
			var wg sync.WaitGroup
			const g = 8
			for w := 0; w < g; w++ {
				wg.Add(1)
				go func(w int) {
					defer wg.Done()
					for j, i := range order {
						if j%g == w {
							one(i)
						}
					}
				}(w)
			}
			wg.Wait()
		default:
			var p *client.SinglePool
			safe(0, func() { p, _ = client.NewSinglePool(servers...) })
			if op == "getm" {
				for lo := 0; lo < len(order); {
					hi := lo + 1 + rng.Intn(40)
					if hi > len(order) {
						hi = len(order)
					}
					var l []string
					for _, i := range order[lo:hi] {
						l = append(l, keys[i])
					}
					safe(order[lo], func() { p.GetMulti(l...) })
					lo = hi
				}
				break
			}
			for _, i := range order {
				k := keys[i]
				safe(i, func() {
					switch op {
					case "get":
						p.Get(k)
					case "set":
						p.Set(&client.Item{Key: k})
					case "cas":
						p.Set(&client.Item{Key: k, Cas: 7})
					case "add":
						p.Add(&client.Item{Key: k})
					case "replace":
						p.Replace(&client.Item{Key: k})
					case "delete":
						p.Delete(k)
					case "incr":
						p.Increment(k, 1, 0)
					case "decr":
						p.Decrement(k, 1, 0)
					case "touch":
						p.Touch(k, 1)
					}
				})
			}
		}
		si := []int{}
		for _, n := range set {
			si = append(si, idx[n])
		}
		evs = append(evs, Ev{"e": "place", "op": op, "set": si, "own": own})
	}
	shuffled := func(s []string) []string {
		r := append([]string(nil), s...)
		rng.Shuffle(len(r), func(i, j int) { r[i], r[j] = r[j], r[i] })
		return r
	}
	cur := append([]string(nil), names...)
	if m := opt("start", 0); m > 0 && m < len(cur) {
		cur = cur[:m]
	}
	for step := 0; step <= opt("steps", 4); step++ {
		for i := 0; i < opt("perm", 3); i++ {
			place("pick", shuffled(cur))
		}
		rev := append([]string(nil), cur...)
		sort.Sort(sort.Reverse(sort.StringSlice(rev)))
		place("pick", rev)
		if step == 0 {
			for _, op := range ringOps {
				place(op, shuffled(cur))
			}
			place("conc", shuffled(cur))
		} else {
			place(ringOps[rng.Intn(len(ringOps))], shuffled(cur))
		}
		// one server joins or leaves
		in := map[string]bool{}
		for _, n := range cur {
			in[n] = true
		}
		var out []string
		for _, n := range names {
			if !in[n] {
				out = append(out, n)
			}
		}
		if len(out) > 0 && (len(cur) == 1 || rng.Intn(2) == 0) {
			cur = append(cur, out[rng.Intn(len(out))])
		} else if len(cur) > 1 {
			i := rng.Intn(len(cur))
			cur = append(append([]string(nil), cur[:i]...), cur[i+1:]...)
		}
	}
	return &Trace{ID: sc.ID, Proto: strconv.Itoa(len(keys)), Target: "ring", Protos: map[string]string{}, Bs: []string{}, Ss: []string{}, Ev: evs}
}

// runShare: many keys of one style for a pool of `names` servers; how many
// every server gets, per membership and way to ask.
func runShare(sc *Scenario) *Trace {
	hs := fnv.New64a()
	hs.Write([]byte(sc.ID))
	rng := rand.New(rand.NewSource(int64(hs.Sum64()) ^ sc.Seed))
	n := sc.Opt["names"]
	var names []string
	style := []string{"10.0.0.%d:11211", "cache%03d", "mc-%d.example.org:11211", "%d", "s/%d", "/var/run/memcached.%d.sock", "127.0.0.1:%d", "cache.example.org:%d", "a-rather-long-name-of-a-server-in-the-third-rack-of-a-far-away-place-%d"}[rng.Intn(9)]
	base := rng.Intn(1000)
	for i := 0; i < n; i++ {
		names = append(names, fmt.Sprintf(style, base+i))
	}
	kstyle := []string{"user:%d", "k%08d", "%x", "session/aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa/%d/x", "%[1]d%[1]d%[1]d"}[rng.Intn(5)]
	first := rng.Intn(1 << 20)
	var evs []Ev
	for j := 0; j < 2; j++ {
		set := names
		if j == 1 && n > 2 {
			set = append(append([]string(nil), names[:n/2]...), names[n/2+1:]...)
		}
		for _, op := range []string{"pick", "get", "getm"} {
			cnt := make([]int, len(set))
			var mu sync.Mutex
			servers := make([]client.Server, len(set))
			for i, x := range set {
				i := i
				servers[i] = &stub{name: x, hit: func(string) { mu.Lock(); cnt[i]++; mu.Unlock() }}
			}
			rng.Shuffle(len(servers), func(i, j int) { servers[i], servers[j] = servers[j], servers[i] })
			ev := Ev{"e": "share", "op": op, "n": len(set), "keys": sc.Opt["share"] * len(set), "cnt": cnt, "r": "ok"}
			func() {
				defer func() {
					if recover() != nil {
						ev["r"] = "panic"
					}
				}()
				ring := client.NewRing(servers...)
				pool, _ := client.NewSinglePool(servers...)
				for i := 0; i < sc.Opt["share"]*len(set); i++ {
					k := fmt.Sprintf(kstyle, first+i)
					switch op {
					case "pick":
						ring.Pick(k).(*stub).hit(k)
					case "get":
						pool.Get(k)
					default:
						pool.GetMulti(k, k+"'")
					}
				}
			}()
			if op == "getm" {
				ev["keys"] = 2 * sc.Opt["share"] * len(set)
			}
			evs = append(evs, ev)
		}
	}
	return &Trace{ID: sc.ID, Proto: kstyle, Target: "ring", Protos: map[string]string{}, Bs: []string{}, Ss: []string{}, Ev: evs}
}
