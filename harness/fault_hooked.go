package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"syscall"
	"time"

	"github.com/steve-care-software/rodkina/libs/databases/applications"
	"github.com/steve-care-software/rodkina/libs/databases/infrastructure/files"
)

// Alt is one allowed outcome of a disturbed operation.
type Alt struct {
	Res string `json:"res"`
	Obs Obs    `json:"obs"`
}

// FAct is an operation of MCFault.tla.
type FAct struct {
	Act
	Alts []Alt `json:"alts,omitempty"`
}

// FBehaviour is a behaviour of MCFault.tla.
type FBehaviour struct {
	Steps []FAct `json:"steps"`
	Seed  int64  `json:"seed,omitempty"`
	Case  int    `json:"caseno,omitempty"`
	Point string `json:"point,omitempty"`
}

type faultRun struct {
	b        FBehaviour
	seed     int64
	caseno   int
	lens     []int
	nh, nk   int
	maxScale int
	prop     string
	maxPts   int
	thorough bool
	root     string
	dirs     int
	points   int // crash points or faults exercised
	kinds    map[string]int
	ms       []Mismatch
}

func (fr *faultRun) rng() *rand.Rand { return newRand(fr.seed, fr.caseno) }

func (fr *faultRun) newDir() string {
	fr.dirs++
	return filepath.Join(fr.root, fmt.Sprintf("d%d", fr.dirs))
}

func (fr *faultRun) report(step int, props []string, what string, point string, exp, got interface{}) {
	b := fr.b
	b.Seed, b.Case, b.Point = fr.seed, fr.caseno, point
	fr.ms = append(fr.ms, Mismatch{Props: props, Case: fr.caseno, Step: step, What: what, Exp: exp, Got: got, Replay: b})
}

// prefix builds a world and runs the operations before the first disturbed one.
func (fr *faultRun) prefix(upto int) (*dbRun, bool) {
	rng := fr.rng()
	root := fr.newDir()
	if err := os.MkdirAll(root, 0755); err != nil {
		fatal("%v", err)
	}
	w := newWorld(root, rng, []string{"a"}, fr.lens, fr.nh, fr.nk, fr.maxScale)
	if w.cfg.chunks["a"] < 16 && w.cfg.scale > 3 {
		// keep the number of file operations reasonable
		w.cfg.chunks["a"] += 29
		w.apps["a"] = files.NewApplication(w.cfg.mining, w.dir, w.cfg.dst, w.cfg.bck, w.cfg.chunks["a"])
	}
	r := &dbRun{w: w, names: fr.names(), chunk: chunkChoices[4+rng.Intn(len(chunkChoices)-4)], prevBad: map[string]bool{}}
	for n := 0; n < upto; n++ {
		for _, m := range r.checkStep(n, fr.b.Steps[n].Act, nil, nil) {
			if m.hard {
				// an ordinary operation already fails: another property's business
				fr.report(n, sortedKeys(m.props), "before the disturbance: "+m.what, "", nil, nil)
				return r, false
			}
		}
	}
	return r, true
}

func (fr *faultRun) names() []string {
	set := map[string]bool{}
	for _, s := range fr.b.Steps {
		if s.Obs != nil {
			for n := range s.Obs.Stored {
				set[n] = true
			}
		}
	}
	return sortedKeys(set)
}

func (w *world) closeAll() {
	for a, hs := range w.handles {
		for _, h := range hs {
			if h.open {
				func() {
					defer func() { recover() }()
					w.apps[a].Close(h.real)
				}()
			}
		}
	}
}

// afterCrash is the world of a new process that finds the given directory.
func (w *world) afterCrash(dir string, clock int) *world {
	c := *w
	c.root, c.dir = filepath.Dir(dir), dir
	c.clock = clock
	c.apps = map[string]applications.Application{}
	c.handles = map[string][]handle{}
	for a := range w.apps {
		c.apps[a] = files.NewApplication(w.cfg.mining, dir, w.cfg.dst, w.cfg.bck, w.cfg.chunks[a])
		hs := []handle{}
		for _, h := range w.handles[a] {
			h.open = false
			// identifiers of the old process mean nothing in the new one
			h.real = uint(900000 + len(hs))
			hs = append(hs, h)
		}
		c.handles[a] = hs
	}
	c.commits = map[string]int{}
	for k, v := range w.commits {
		c.commits[k] = v
	}
	return &c
}

// learn gives the identity id to the last commit of a stored database when it is not known yet.
func (w *world) learn(name string, id int) {
	defer func() { recover() }()
	app := files.NewApplication(w.cfg.mining, w.dir, w.cfg.dst, w.cfg.bck, 1000)
	p, err := app.Open(w.fileName(name))
	if err != nil {
		return
	}
	defer app.Close(*p)
	commits, err := app.Commits(*p)
	if err != nil {
		return
	}
	list := commits.List()
	if len(list) == 0 {
		return
	}
	h := list[len(list)-1].Hash().String()
	if _, ok := w.commits[h]; !ok {
		w.commits[h] = id
	}
}

type snapshot struct {
	dir   string
	point string
	after bool // after the commit returned
}

// diffObs compares all stored databases and all open contexts.
func diffObs(exp Obs, got Obs) string {
	for n, e := range exp.Stored {
		g := got.Stored[n]
		if e.There != g.There {
			return fmt.Sprintf("database %s: expected to exist: %v, exists: %v", n, e.There, g.There)
		}
		if e.There {
			if d := diffView(e.View, g.View); len(d) > 0 {
				return fmt.Sprintf("database %s: %s", n, jsonStr(d))
			}
		}
	}
	for a, list := range exp.Ctxs {
		for i, e := range list {
			if !e.Open {
				continue
			}
			if i >= len(got.Ctxs[a]) || !got.Ctxs[a][i].Open {
				return fmt.Sprintf("context %s/%d is not there", a, i+1)
			}
			if d := diffView(e.View, got.Ctxs[a][i].View); len(d) > 0 {
				return fmt.Sprintf("context %s/%d: %s", a, i+1, jsonStr(d))
			}
		}
	}
	return ""
}

// crashAt runs the commit of step n on r and keeps a copy of the directory at every point where the process can stop.
func (fr *faultRun) crashAt(r *dbRun, n int, sample int) (snaps []snapshot, ok bool) {
	w := r.w
	a := fr.b.Steps[n]
	take := func(point string, after bool) {
		d := fr.newDir()
		copyDir(w.dir, d)
		snaps = append(snaps, snapshot{d, point, after})
	}
	s := &session{}
	s.onOp = func(op *syscall.VerifOp, idx int) (int, error) {
		if !mutates(op) {
			return op.Do()
		}
		s.quietly(func() { take(fmt.Sprintf("before operation %d (%s)", idx, describe(op)), false) })
		fr.kinds[op.Name]++
		if isWrite(op) && len(op.Buf) > 1 && op.DoBuf != nil && len(snaps) < 400 {
			// the process may stop while the bytes are being written: write them piecewise
			full := op.Buf
			cuts := []int{1, 8, len(full) / 2, len(full) - 1}
			sort.Ints(cuts)
			done := 0
			for _, c := range cuts {
				if c <= done || c >= len(full) {
					continue
				}
				var m int
				var err error
				if op.Name == "write" {
					m, err = op.DoBuf(full[done:c])
				} else {
					m, err = syscall.Pwrite(op.Fd, full[done:c], op.Off+int64(done))
				}
				if err != nil || m != c-done {
					fatal("torn write: %v", err)
				}
				done = c
				s.quietly(func() { take(fmt.Sprintf("inside operation %d (%s) after %d bytes", idx, describe(op), done), false) })
			}
			var m int
			var err error
			if op.Name == "write" {
				m, err = op.DoBuf(full[done:])
			} else {
				s.quietly(func() { m, err = syscall.Pwrite(op.Fd, full[done:], op.Off+int64(done)) })
			}
			return done + m, err
		}
		return op.Do()
	}
	act := a.Act
	act.Op = "commit"
	var got stepOutcome
	msg := guard(30*time.Second, func() {
		defer s.attach()()
		got = w.do(act)
	})
	if msg != "" || got.res != "ok" {
		fr.report(n, []string{"C01", "C02"}, fmt.Sprintf("commit of pending writes: %s %s %s", got.res, got.err, msg), "", nil, nil)
		return snaps, false
	}
	take("after the commit returned success", true)
	if sample > 0 && len(snaps) > sample {
		// always the last one; the others drawn
		last := snaps[len(snaps)-1]
		rng := newRand(fr.seed^0x77, fr.caseno*31+n)
		rng.Shuffle(len(snaps)-1, func(i, j int) { snaps[i], snaps[j] = snaps[j], snaps[i] })
		for _, sn := range snaps[sample-1 : len(snaps)-1] {
			os.RemoveAll(sn.dir)
		}
		snaps = append(snaps[:sample-1:sample-1], last)
	}
	return snaps, true
}

// crash handles the disturbed step n for the process r, then everything after it.
func (fr *faultRun) crash(r *dbRun, n int, sample int, trail string) {
	clock := r.w.clock
	snaps, ok := fr.crashAt(r, n, sample)
	if !ok {
		r.w.closeAll()
		return
	}
	a := fr.b.Steps[n]
	for _, sn := range snaps {
		fr.points++
		w := r.w.afterCrash(sn.dir, clock+1)
		nr := &dbRun{w: w, names: r.names, chunk: r.chunk, prevBad: map[string]bool{}}
		got := w.observe(r.names, r.chunk)
		match := ""
		diffs := map[string]string{}
		for _, alt := range a.Alts {
			if sn.after && alt.Res != "new" {
				continue
			}
			d := diffObs(alt.Obs, got)
			diffs[alt.Res] = d
			if d == "" {
				match = alt.Res
			}
		}
		point := trail + sn.point
		if match == "" {
			if a.Res == "old" || sn.after { // once
				fr.report(n, []string{fr.prop}, "process stopped "+point+": neither the state before nor the state after the commit: "+jsonStr(diffs), point, a.Alts, got)
			}
		} else if match == a.Res {
			fr.suffix(nr, n+1, point)
		}
		os.RemoveAll(sn.dir)
	}
	r.w.closeAll()
}

// suffix runs the script after a disturbance.
func (fr *faultRun) suffix(r *dbRun, from int, point string) {
	for n := from; n < len(fr.b.Steps); n++ {
		a := fr.b.Steps[n]
		if a.Op == "crash" {
			fr.crash(r, n, 6, point+"; again ")
			return
		}
		bad := false
		for _, m := range r.checkStep(n, a.Act, a.Obs, nil) {
			bad = true
			fr.report(n, []string{fr.prop}, "after: "+point+": "+m.what, point, m.exp, m.got)
			break
		}
		if bad {
			break
		}
	}
	r.w.closeAll()
}

type fault struct {
	at     int
	errno  syscall.Errno
	short  bool // write half of it first
	sticky bool // everything that changes the file system fails from then on
	again  bool // the same operation on the same file fails from then on, everything else works
}

// failAt runs the disturbed operation of step n with a fault; nil plan: only counts the operations.
func (fr *faultRun) failAt(r *dbRun, n int, plan *fault) (got stepOutcome, ops []string, wr []bool, mu []bool, hit bool) {
	s := &session{}
	shortNext := -1
	var failed syscall.VerifOp
	s.onOp = func(op *syscall.VerifOp, idx int) (int, error) {
		ops = append(ops, describe(op))
		wr = append(wr, isWrite(op) && len(op.Buf) > 1)
		mu = append(mu, mutates(op))
		if plan == nil {
			return op.Do()
		}
		if idx == plan.at {
			hit = true
			failed = *op
			if plan.short && isWrite(op) && len(op.Buf) > 1 {
				shortNext = idx + 1
				return op.DoBuf(op.Buf[:len(op.Buf)/2])
			}
			if op.Name == "close" {
				op.Do()
			}
			return -1, plan.errno
		}
		if idx == shortNext && isWrite(op) {
			return -1, plan.errno
		}
		if plan.sticky && hit && mutates(op) {
			return -1, plan.errno
		}
		if plan.again && hit && op.Name == failed.Name && op.Path == failed.Path && op.Path2 == failed.Path2 && op.Fd == failed.Fd {
			if op.Name == "close" {
				op.Do()
			}
			return -1, plan.errno
		}
		return op.Do()
	}
	act := fr.b.Steps[n].Act
	if act.Op == "failcommit" {
		act.Op = "commit"
	} else {
		act.Op = "open"
	}
	// the bookkeeping of do (learning the commit) only uses memory, but must not meet the fault either
	msg := guard(30*time.Second, func() {
		defer s.attach()()
		got = r.w.do(act)
	})
	if msg != "" {
		got.res, got.err = "panic", msg
	}
	return
}

func (fr *faultRun) fail(n int) {
	a := fr.b.Steps[n]
	r, ok := fr.prefix(n)
	if !ok {
		r.w.closeAll()
		return
	}
	_, ops, wr, mu, _ := fr.failAt(r, n, nil)
	r.w.closeAll()
	os.RemoveAll(r.w.root)
	plans := []fault{}
	for k := range ops {
		plans = append(plans, fault{at: k, errno: syscall.EIO})
		if wr[k] {
			plans = append(plans, fault{at: k, errno: syscall.ENOSPC, short: true})
		}
		plans = append(plans, fault{at: k, errno: syscall.EIO, again: true})
		if mu[k] {
			plans = append(plans, fault{at: k, errno: syscall.ENOSPC, sticky: true})
		}
		if fr.thorough {
			plans = append(plans, fault{at: k, errno: syscall.EINTR}, fault{at: k, errno: syscall.EACCES})
		}
	}
	if len(plans) > fr.maxPts {
		rng := newRand(fr.seed^0x99, fr.caseno)
		rng.Shuffle(len(plans), func(i, j int) { plans[i], plans[j] = plans[j], plans[i] })
		plans = plans[:fr.maxPts]
	}
	first := a.Alts[0].Res == a.Res
	for _, plan := range plans {
		r, ok := fr.prefix(n)
		if !ok {
			return
		}
		w := r.w
		clock := w.clock
		p := plan
		got, opsNow, _, _, hit := fr.failAt(r, n, &p)
		fr.points++
		name := "?"
		if plan.at < len(opsNow) {
			name = opsNow[plan.at]
		}
		point := fmt.Sprintf("operation %d (%s) of %s failing with %v (short %v, sticky %v, again %v)", plan.at, name, a.Op[4:], plan.errno, plan.short, plan.sticky, plan.again)
		_ = hit
		fr.kinds[firstWord(name)]++
		if got.res == "panic" {
			if first {
				fr.report(n, []string{fr.prop}, point+": "+got.err, point, nil, nil)
			}
			w.closeAll()
			os.RemoveAll(w.root)
			continue
		}
		if a.Op == "failcommit" {
			w.learn(a.Name, clock)
			w.clock = clock + 1
		}
		obs := w.observe(r.names, r.chunk)
		match := ""
		diffs := map[string]string{}
		for _, alt := range a.Alts {
			if alt.Res[:2] != got.res[:2] { // "ok"/"er"
				continue
			}
			d := diffObs(alt.Obs, obs)
			diffs[alt.Res] = d
			if d == "" {
				match = alt.Res
				break
			}
		}
		if match == "" {
			if first {
				fr.report(n, []string{fr.prop}, fmt.Sprintf("%s: returned %s (%s), then: %s", point, got.res, got.err, jsonStr(diffs)), point, a.Alts, obs)
			}
			w.closeAll()
		} else if match == a.Res {
			fr.suffix(r, n+1, point)
		} else {
			w.closeAll()
		}
		os.RemoveAll(w.root)
	}
}

// failingReads: every file operation of every read fails once; a read then reports an error or the right content.
func (fr *faultRun) run() {
	for n, a := range fr.b.Steps {
		switch a.Op {
		case "crash":
			r, ok := fr.prefix(n)
			if ok {
				fr.crash(r, n, fr.maxPts, "")
			}
			return
		case "failcommit", "failopen":
			fr.fail(n)
			return
		}
	}
}

func cmdDBFault(f map[string]string) {
	seed := int64(atoi(f["seed"], 1))
	var lens []int
	if err := json.Unmarshal([]byte(f["lens"]), &lens); err != nil {
		fatal("lens: %v", err)
	}
	nh, nk := atoi(f["nh"], 2), atoi(f["nk"], 2)
	workers := 8
	type job struct {
		n    int
		line []byte
	}
	jobs := make(chan job, 64)
	answers := make(chan *faultRun, 64)
	for k := 0; k < workers; k++ {
		go func(k int) {
			for j := range jobs {
				noteCase(k, j.line)
				fr := &faultRun{seed: seed, caseno: j.n, lens: lens, nh: nh, nk: nk, maxScale: atoi(f["maxscale"], 1000), prop: f["prop"],
					maxPts: atoi(f["points"], 120), thorough: f["thorough"] == "1", kinds: map[string]int{}}
				if err := json.Unmarshal(j.line, &fr.b); err != nil {
					fatal("line %d: %v", j.n, err)
				}
				if fr.b.Seed != 0 {
					fr.seed, fr.caseno = fr.b.Seed, fr.b.Case
				}
				root, err := os.MkdirTemp(scratchRoot(), "dbf")
				if err != nil {
					fatal("%v", err)
				}
				fr.root = root
				fr.run()
				os.RemoveAll(root)
				answers <- fr
			}
			answers <- nil
		}(k)
	}
	go func() {
		readLines(f["in"], func(n int, line []byte) {
			jobs <- job{n, append([]byte{}, line...)}
		})
		close(jobs)
	}()
	res := &Result{}
	points := 0
	kinds := map[string]int{}
	all := []Mismatch{}
	for left := workers; left > 0; {
		fr := <-answers
		if fr == nil {
			left--
			continue
		}
		res.Cases++
		res.Steps += len(fr.b.Steps)
		points += fr.points
		for k, v := range fr.kinds {
			kinds[k] += v
		}
		all = append(all, fr.ms...)
	}
	sort.SliceStable(all, func(i, j int) bool { return all[i].Case < all[j].Case })
	for _, m := range all {
		res.add(m)
	}
	res.Distinct = points
	res.Extra = map[string]interface{}{"points": points, "operations": kinds}
	res.finish(f["out"])
}

func init() {
	commands["db-fault"] = cmdDBFault
}
