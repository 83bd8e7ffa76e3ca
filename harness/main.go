package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"sync"
	"sync/atomic"
)

// usage: harness MODE -in scenarios.ndjson -out traces.ndjson -dir SCRATCH
func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "mode missing")
		os.Exit(2)
	}
	mode := os.Args[1]
	fs := flag.NewFlagSet(mode, flag.ExitOnError)
	in := fs.String("in", "", "scenarios")
	out := fs.String("out", "", "traces")
	fs.StringVar(&scratch, "dir", "", "scratch directory")
	par := fs.Int("par", 48, "parallel scenarios")
	fs.Parse(os.Args[2:])
	var f func(*Scenario) *Trace
	switch mode {
	case "run":
		f = runScenario
	case "srv":
		f = runSrv
	case "fuzz":
		f = runFuzz
	case "ring":
		f = runRing
	default:
		fmt.Fprintln(os.Stderr, "unknown mode", mode)
		os.Exit(2)
	}
	if err := runAll(*in, *out, *par, f); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

func runAll(in, out string, par int, f func(*Scenario) *Trace) error {
	fi, err := os.Open(in)
	if err != nil {
		return err
	}
	defer fi.Close()
	fo, err := os.Create(out)
	if err != nil {
		return err
	}
	defer fo.Close()
	w := bufio.NewWriterSize(fo, 1<<20)
	defer w.Flush()
	type job struct {
		n  int
		sc *Scenario
	}
	jobs := make(chan job, 64)
	results := make(map[int]*Trace)
	var mu sync.Mutex
	var wg sync.WaitGroup
	for i := 0; i < par; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range jobs {
				if atomic.LoadInt64(&hangs) > 40 || atomic.LoadInt64(&slows) > 150 {
					continue // the code under test hangs; enough was recorded
				}
				t := f(j.sc)
				mu.Lock()
				results[j.n] = t
				mu.Unlock()
			}
		}()
	}
	r := bufio.NewReaderSize(fi, 1<<20)
	n := 0
	for {
		line, err := r.ReadBytes('\n')
		if len(line) > 1 {
			sc := &Scenario{}
			if e := json.Unmarshal(line, sc); e != nil {
				close(jobs)
				return fmt.Errorf("scenario %d: %v", n, e)
			}
			jobs <- job{n, sc}
			n++
		}
		if err == io.EOF {
			break
		}
		if err != nil {
			return err
		}
	}
	close(jobs)
	wg.Wait()
	for i := 0; i < n; i++ {
		if t := results[i]; t != nil {
			w.Write(mustJSON(t))
			w.WriteByte('\n')
		}
	}
	return nil
}
