package main

import (
	"crypto/sha1"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"strconv"
	"sync"
)

// Ev is one trace event. Fields are flat and stringly so that the TLA+ trace
// specification can compare them directly.
type Ev map[string]interface{}

// Rec is the ordered event log of one scenario. Events are appended under the
// lock at the point they describe, so append order is the observation order.
type Rec struct {
	mu  sync.Mutex
	ev  []Ev
	off bool
}

func (r *Rec) Add(e Ev) {
	r.mu.Lock()
	if !r.off {
		r.ev = append(r.ev, e)
	}
	r.mu.Unlock()
}

// Stop freezes the log: what happens later belongs to the clean-up.
func (r *Rec) Stop() {
	r.mu.Lock()
	r.off = true
	r.mu.Unlock()
}

// enc gives a byte string a short printable name. Equal names mean equal bytes.
func enc(b []byte) string {
	if len(b) <= 24 {
		ok := true
		for _, c := range b {
			if c < 0x20 || c > 0x7e || c == '"' || c == '\\' || c == '#' {
				ok = false
			}
		}
		if ok {
			return string(b)
		}
	}
	h := sha1.Sum(b)
	return "#" + strconv.Itoa(len(b)) + ":" + hex.EncodeToString(h[:8])
}

func hex32(f uint32) string { return fmt.Sprintf("%08x", f) }

func mustJSON(v interface{}) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return b
}
