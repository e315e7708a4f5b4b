// Command verifdriver runs behaviours of the TLA+ specifications on the real code of /repo.
// It is compiled inside the module of /repo through `go build -overlay` (see tools/vlib.py).
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Mismatch is one disagreement between the specification and the code.
type Mismatch struct {
	Props  []string    `json:"props"`
	Case   int         `json:"case"`
	Step   int         `json:"step"`
	What   string      `json:"what"`
	Exp    interface{} `json:"exp,omitempty"`
	Got    interface{} `json:"got,omitempty"`
	Replay interface{} `json:"replay,omitempty"`
}

// Result is what every subcommand prints (one JSON document) on its last line of output.
type Result struct {
	Cases      int                    `json:"cases"`
	Steps      int                    `json:"steps"`
	Distinct   int                    `json:"distinct"`
	Mismatches []Mismatch             `json:"mismatches"`
	Total      int                    `json:"total_mismatches"`
	Extra      map[string]interface{} `json:"extra,omitempty"`
}

const maxKept = 400

func (r *Result) add(m Mismatch) {
	r.Total++
	if len(r.Mismatches) < maxKept {
		r.Mismatches = append(r.Mismatches, m)
		return
	}
	// keep room for properties not seen yet
	seen := map[string]bool{}
	for _, one := range r.Mismatches {
		for _, p := range one.Props {
			seen[p] = true
		}
	}
	for _, p := range m.Props {
		if !seen[p] {
			r.Mismatches = append(r.Mismatches, m)
			return
		}
	}
}

func (r *Result) finish(path string) {
	if r.Mismatches == nil {
		r.Mismatches = []Mismatch{}
	}
	slowest.Lock()
	if slowest.limit > 0 {
		if r.Extra == nil {
			r.Extra = map[string]interface{}{}
		}
		r.Extra["slowest_case_seconds"] = float64(int(slowest.took.Seconds()*1000)) / 1000
		r.Extra["limit_seconds"] = slowest.limit.Seconds()
	}
	slowest.Unlock()
	b, err := json.Marshal(r)
	if err != nil {
		fatal("marshal result: %v", err)
	}
	if err := os.WriteFile(path, b, 0644); err != nil {
		fatal("write result: %v", err)
	}
}

func fatal(format string, args ...interface{}) {
	fmt.Fprintf(os.Stderr, "driver: "+format+"\n", args...)
	os.Exit(3)
}

// flags: -key value pairs after the subcommand
func parseFlags(args []string) map[string]string {
	out := map[string]string{}
	for i := 0; i+1 < len(args); i += 2 {
		out[strings.TrimLeft(args[i], "-")] = args[i+1]
	}
	return out
}

func atoi(s string, def int) int {
	if s == "" {
		return def
	}
	v := def
	if _, err := fmt.Sscanf(s, "%d", &v); err != nil {
		fatal("bad number %q", s)
	}
	return v
}

// readLines calls f on every line of a file.
func readLines(path string, f func(n int, line []byte)) {
	fh, err := os.Open(path)
	if err != nil {
		fatal("open %s: %v", path, err)
	}
	defer fh.Close()
	rd := bufio.NewReaderSize(fh, 1<<20)
	n := 0
	for {
		line, err := rd.ReadBytes('\n')
		if len(line) > 1 {
			f(n, line)
			n++
		}
		if err != nil {
			return
		}
	}
}

// runPool calls f on every line of a file, on several workers.
func runPool(path string, f func(n int, line []byte)) {
	type job struct {
		n    int
		line []byte
	}
	jobs := make(chan job, 256)
	var wg sync.WaitGroup
	for k := 0; k < 8; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			for j := range jobs {
				noteCase(k, j.line)
				f(j.n, j.line)
			}
		}(k)
	}
	readLines(path, func(n int, line []byte) { jobs <- job{n, line} })
	close(jobs)
	wg.Wait()
}

// parallel calls f for 0..n-1, on several workers.
func parallel(n int, f func(k int)) {
	var next int64 = -1
	var wg sync.WaitGroup
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				k := int(atomic.AddInt64(&next, 1))
				if k >= n {
					return
				}
				f(k)
			}
		}()
	}
	wg.Wait()
}

// guard runs f and reports a panic, or a call that does not return in time.
func guard(limit time.Duration, f func()) (msg string) {
	done := make(chan string, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				done <- fmt.Sprintf("panic: %v", r)
				return
			}
			done <- ""
		}()
		f()
	}()
	t := time.NewTimer(limit)
	defer t.Stop()
	start := time.Now()
	select {
	case m := <-done:
		slow(time.Since(start), limit)
		return m
	case <-t.C:
		return "hang: no answer within " + limit.String()
	}
}

var slowest struct {
	sync.Mutex
	took, limit time.Duration
}

// slow keeps the case that came closest to its limit.
func slow(took, limit time.Duration) {
	slowest.Lock()
	defer slowest.Unlock()
	if slowest.limit == 0 || float64(took)/float64(limit) > float64(slowest.took)/float64(slowest.limit) {
		slowest.took, slowest.limit = took, limit
	}
}

var hangs int64

// hung counts cases that did not end; they go on burning processor time, so that only a few are tolerated.
func hung() {
	if atomic.AddInt64(&hangs, 1) > 12 {
		fmt.Fprintln(os.Stderr, "fatal error: too many cases do not end or panic in steve-care-software/rodkina/libs")
		os.Exit(2)
	}
}

// noteCase leaves a trace of what a worker is doing, in case the code under test ends the process.
func noteCase(worker int, line []byte) {
	os.WriteFile(fmt.Sprintf("%s/current-%d", scratchRoot(), worker), line, 0644)
}

func newRand(seed int64, idx int) *rand.Rand {
	return rand.New(rand.NewSource(seed*1000003 + int64(idx)*7919 + 17))
}

func sortedKeys(m map[string]bool) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func jsonStr(v interface{}) string {
	b, _ := json.Marshal(v)
	return string(b)
}

var commands = map[string]func(map[string]string){}

func main() {
	if len(os.Args) < 2 {
		fatal("no command")
	}
	cmd, ok := commands[os.Args[1]]
	if !ok {
		fatal("unknown command %s", os.Args[1])
	}
	if p := os.Getenv("VERIF_PROFILE"); p != "" {
		fh, err := os.Create(p)
		if err != nil {
			fatal("%v", err)
		}
		pprof.StartCPUProfile(fh)
		defer pprof.StopCPUProfile()
	}
	cmd(parseFlags(os.Args[2:]))
}
