package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/steve-care-software/rodkina/libs/databases/infrastructure/files"
)

// SBehaviour is a situation of MCShared.tla.
type SBehaviour struct {
	Steps   []Act               `json:"steps"`
	Scripts map[string][]string `json:"scripts"`
}

type event map[string]interface{}

// proc is one application running its script in a goroutine of its own.
type proc struct {
	name  string
	ready chan *syscall.VerifOp // a file operation is about to run (nil: the script is over)
	grant chan bool
	sess  *session
	op    *syscall.VerifOp
	done  bool
	ops   int
	fail  string
	block bool // waits for a lock
	dead  bool // its process was stopped
	hurt  int  // what happens to its next file operation: 0 nothing, 1 it fails, 2 a write is cut short and fails
	cut   bool // the rest of a write that was cut short fails
	calls int  // operations of the script that are over
	doing string
	held  map[int]bool // descriptors it has
}

type sharedRun struct {
	b     SBehaviour
	w     *world
	names []string
	procs map[string]*proc
	apps  []string
	log   []event
	last  string
}

func (sr *sharedRun) emit(e event) {
	if a, ok := e["app"].(string); ok && sr.procs[a] != nil && sr.procs[a].dead {
		return
	}
	sr.log = append(sr.log, e)
}

// observeStored appends what a new context would see, when it changed.
func (sr *sharedRun) observeStored() {
	sr.w.learn("n", sr.w.clock)
	s := sr.w.fresh(sr.w.dir, "n", 1000)
	ok := s.There && s.View.Fail == "" && s.View.Batch == "" && s.View.Fetch == ""
	str := fmt.Sprint(ok) + jsonStr(s.View)
	if str == sr.last {
		return
	}
	if sr.last != "" && len(s.View.Commits) > 0 && s.View.Commits[len(s.View.Commits)-1].ID == sr.w.clock {
		sr.w.clock++
	}
	sr.last = str
	note := ""
	if !ok {
		note = fmt.Sprintf("there %v %s%s%s", s.There, s.View.Fail, s.View.Batch, s.View.Fetch)
	}
	sr.emit(event{"ev": "fs", "ok": ok, "view": s.View, "note": note})
}

// call runs one operation and records it.
func (sr *sharedRun) call(a Act) stepOutcome {
	if a.Op == "r" {
		sr.emit(event{"ev": "inv", "app": a.App, "op": "r", "i": a.I})
		v := sr.w.view(sr.w.apps[a.App], sr.w.handles[a.App][a.I-1].real)
		sr.emit(event{"ev": "ret", "app": a.App, "op": "r", "res": "ok", "view": sr.tag(v)})
		return stepOutcome{res: "ok"}
	}
	sr.emit(event{"ev": "inv", "app": a.App, "op": a.Op, "i": a.I})
	out := sr.doRaw(a)
	if sr.procs[a.App] == nil && (a.Op == "commit" || a.Op == "new") {
		sr.observeStored()
	}
	e := event{"ev": "ret", "app": a.App, "op": a.Op, "res": out.res, "h": a.H, "d": a.D, "k": a.K, "err": out.err}
	if a.Op == "open" || a.Op == "commit" {
		i := a.I
		if a.Op == "open" && out.res == "ok" {
			i = len(sr.w.handles[a.App])
		}
		v := sr.w.emptyView()
		if i >= 1 && i <= len(sr.w.handles[a.App]) && sr.w.handles[a.App][i-1].open {
			look := func() { v = sr.w.view(sr.w.apps[a.App], sr.w.handles[a.App][i-1].real) }
			if p := sr.procs[a.App]; p != nil && p.sess != nil {
				p.sess.quietly(look)
			} else {
				look()
			}
		}
		e["view"] = sr.tag(v)
	}
	sr.emit(e)
	return out
}

// tag makes an inconsistent view differ from every consistent one.
func (sr *sharedRun) tag(v View) View {
	if v.Fail != "" || v.Batch != "" || v.Fetch != "" {
		v.Reads = []int{-7}
	}
	return v
}

// doRaw is world.do without its bookkeeping of commits (observeStored does it).
func (sr *sharedRun) doRaw(a Act) (out stepOutcome) {
	if a.Op == "commit" {
		defer func() {
			if r := recover(); r != nil {
				out.res, out.err = "panic", fmt.Sprint(r)
			}
		}()
		id, ok := sr.w.realID(a.App, a.I)
		if !ok {
			out.res = "skip"
			return
		}
		if err := sr.w.apps[a.App].Commit(id); err != nil {
			return stepOutcome{res: "err", err: err.Error()}
		}
		return stepOutcome{res: "ok"}
	}
	return sr.w.do(a)
}

// newShared executes the prefix.
func newShared(b SBehaviour, rng *rand.Rand, lens []int, nh, nk int, root string) *sharedRun {
	apps := []string{}
	for a := range b.Scripts {
		apps = append(apps, a)
	}
	sort.Strings(apps)
	w := newWorld(root, rng, apps, lens, nh, nk, 20)
	for _, a := range apps {
		if w.cfg.chunks[a] < 100 {
			w.cfg.chunks[a] += 100
			w.apps[a] = files.NewApplication(w.cfg.mining, w.dir, w.cfg.dst, w.cfg.bck, w.cfg.chunks[a])
		}
	}
	sr := &sharedRun{b: b, w: w, procs: map[string]*proc{}, apps: apps}
	for _, s := range b.Steps {
		sr.call(s)
	}
	return sr
}

func (sr *sharedRun) openHandle(app string) int {
	hs := sr.w.handles[app]
	for i := len(hs) - 1; i >= 0; i-- {
		if hs[i].open {
			return i + 1
		}
	}
	return len(hs) + 1
}

// start launches the script of an application; it stops before its first file operation.
func (sr *sharedRun) start(app string, hbase int) {
	p := &proc{name: app, ready: make(chan *syscall.VerifOp), grant: make(chan bool), held: map[int]bool{}}
	sr.procs[app] = p
	s := &session{}
	p.sess = s
	s.onOp = func(op *syscall.VerifOp, idx int) (int, error) {
		if op.Name == "flock" && op.Flags&syscall.LOCK_NB == 0 && op.Flags&(syscall.LOCK_EX|syscall.LOCK_SH) != 0 {
			// a blocking lock: other processes go on until it is free
			for {
				p.ready <- op
				<-p.grant
				var err error
				s.quietly(func() { err = syscall.Flock(op.Fd, op.Flags|syscall.LOCK_NB) })
				if err != syscall.EWOULDBLOCK {
					p.block = false
					return 0, err
				}
				p.block = true
			}
		}
		if !p.dead {
			p.ready <- op
			<-p.grant
		}
		if p.dead {
			// whatever it still does has no effect; its descriptors are gone with it
			if op.Name == "close" {
				delete(p.held, op.Fd)
				return op.Do()
			}
			return -1, syscall.EIO
		}
		if p.cut && isWrite(op) {
			p.cut = false
			return -1, syscall.ENOSPC
		}
		if p.hurt != 0 && p.doing == "commit" {
			short := p.hurt == 2 && isWrite(op) && len(op.Buf) > 1
			p.hurt = 0
			sr.emit(event{"ev": "fault", "app": app, "at": describe(op)})
			if short {
				p.cut = true
				n, err := op.DoBuf(op.Buf[:len(op.Buf)/2])
				s.quietly(sr.observeStored)
				return n, err
			}
			if op.Name == "close" {
				delete(p.held, op.Fd)
				op.Do()
			}
			return -1, syscall.EIO
		}
		n, err := op.Do()
		if op.Name == "openat" && err == nil {
			p.held[n] = true
		}
		if op.Name == "close" {
			delete(p.held, op.Fd)
		}
		if mutates(op) {
			s.quietly(sr.observeStored)
		}
		return n, err
	}
	go func() {
		defer func() {
			if r := recover(); r != nil {
				if !p.dead {
					p.fail = fmt.Sprint(r)
				}
			}
			p.ready <- nil
		}()
		<-p.grant
		defer s.attach()()
		n := 0
		for _, op := range sr.b.Scripts[app] {
			a := Act{App: app, Op: op, Name: "n", I: sr.openHandle(app)}
			switch op {
			case "x":
				n++
				a.Op, a.H, a.D, a.K = "write", hbase+n, hbase+n, 1+(n%sr.w.nk)
			case "open":
				a.I = 0
			case "r":
				if a.I > len(sr.w.handles[app]) {
					continue // its open did not succeed
				}
			}
			p.doing = a.Op
			out := sr.call(a)
			p.calls++
			p.doing = ""
			if p.dead {
				return
			}
			if out.res == "panic" {
				p.fail = out.err
				return
			}
		}
	}()
}

// step lets one application execute its pending file operation and run up to the next one.
func (sr *sharedRun) step(p *proc) bool {
	p.grant <- true
	select {
	case op := <-p.ready:
		p.op = op
		if op == nil {
			p.done = true
		} else {
			p.ops++
		}
	case <-time.After(20 * time.Second):
		p.fail = "no progress"
		p.done = true
		return false
	}
	return true
}

func cmdShared(f map[string]string) {
	seed := int64(atoi(f["seed"], 1))
	var lens []int
	if err := json.Unmarshal([]byte(f["lens"]), &lens); err != nil {
		fatal("lens: %v", err)
	}
	nh, nk := atoi(f["nh"], 6), atoi(f["nk"], 1)
	maxSched := atoi(f["schedules"], 400)
	type job struct {
		n    int
		line []byte
	}
	type answer struct {
		traces map[string][]event
		sched  map[string]string
		runs   int
		ms     []Mismatch
	}
	jobs := make(chan job, 64)
	answers := make(chan *answer, 64)
	for k := 0; k < 8; k++ {
		go func(k int) {
			for j := range jobs {
				noteCase(k, j.line)
				var b SBehaviour
				if err := json.Unmarshal(j.line, &b); err != nil {
					fatal("line %d: %v", j.n, err)
				}
				ans := &answer{traces: map[string][]event{}, sched: map[string]string{}}
				exploreShared(b, j.n, seed, lens, nh, nk, maxSched, func(sched []seg, log []event, fail string) {
					ans.runs++
					key := jsonStr(log)
					if _, ok := ans.traces[key]; !ok {
						ans.traces[key] = log
						ans.sched[key] = fmt.Sprint(sched)
					}
					if fail != "" {
						ans.ms = append(ans.ms, Mismatch{Props: []string{"C08"}, Case: j.n, What: "interleaving " + fmt.Sprint(sched) + ": " + fail,
							Replay: map[string]interface{}{"situation": b, "schedule": sched}})
					}
				})
				answers <- ans
			}
			answers <- nil
		}(k)
	}
	go func() {
		readLines(f["in"], func(n int, line []byte) { jobs <- job{n, append([]byte{}, line...)} })
		close(jobs)
	}()
	out, err := os.Create(f["trace"])
	if err != nil {
		fatal("%v", err)
	}
	enc := json.NewEncoder(out)
	meta, err := os.Create(f["trace"] + ".meta")
	if err != nil {
		fatal("%v", err)
	}
	menc := json.NewEncoder(meta)
	res := &Result{}
	run := 0
	events := 0
	seen := map[string]bool{}
	for left := 8; left > 0; {
		a := <-answers
		if a == nil {
			left--
			continue
		}
		res.Cases += a.runs
		for _, m := range a.ms {
			res.add(m)
		}
		keys := []string{}
		for k := range a.traces {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			if seen[k] {
				continue
			}
			seen[k] = true
			enc.Encode(event{"ev": "reset", "run": run})
			for _, e := range a.traces[k] {
				enc.Encode(e)
				events++
			}
			menc.Encode(map[string]interface{}{"run": run, "schedule": a.sched[k], "events": a.traces[k]})
			run++
		}
	}
	out.Close()
	meta.Close()
	res.Distinct = run
	res.Steps = events
	res.Extra = map[string]interface{}{"interleavings": res.Cases, "distinct traces": run, "events": events}
	res.finish(f["out"])
}

// seg lets an application execute n file operations (-1: to the end of its script), or go on until it has executed a
// file operation of a kind ("end": the operation of its script; "crash", "fault": what happens to it there).
type seg struct {
	App  string `json:"p"`
	N    int    `json:"n"`
	Upto string `json:"l"`
}

func (s seg) String() string {
	if s.Upto != "" {
		return s.App + ":" + s.Upto
	}
	return fmt.Sprintf("%s:%d", s.App, s.N)
}

// kindOf classifies a file operation the way CommitProtocol.tla does.
func (sr *sharedRun) kindOf(op *syscall.VerifOp) string {
	file := "src"
	if strings.HasSuffix(op.Path, "."+sr.w.cfg.dst) {
		file = "dst"
	} else if strings.HasSuffix(op.Path, "."+sr.w.cfg.bck) {
		file = "bck"
	}
	switch op.Name {
	case "openat":
		if op.Flags&syscall.O_CREAT != 0 {
			return "creat " + file
		}
		return "open " + file
	case "pread", "read":
		return "read"
	case "pwrite", "write":
		return "write"
	case "renameat":
		return "rename"
	case "unlinkat":
		return "unlink"
	case "fstatat":
		return "stat"
	}
	return op.Name
}

// crash stops the process of an application: nothing it still does has an effect.
func (sr *sharedRun) crash(p *proc) {
	if p.done || p.op == nil {
		return
	}
	sr.emit(event{"ev": "crash", "app": p.name})
	p.dead = true
	sr.step(p)
	for fd := range p.held {
		syscall.Flock(fd, syscall.LOCK_UN)
	}
	for i, h := range sr.w.handles[p.name] {
		if h.open {
			guard(20*time.Second, func() { sr.w.apps[p.name].Close(h.real) })
			sr.w.handles[p.name][i].open = false
		}
	}
}

// upto lets an application go on until it has executed a file operation of a kind.
func (sr *sharedRun) upto(p *proc, what string, short bool) {
	calls := p.calls
	switch what {
	case "crash":
		sr.crash(p)
		return
	case "fault":
		p.hurt = 1
		if short {
			p.hurt = 2
		}
		return
	}
	for !p.done {
		hit := p.op != nil && sr.kindOf(p.op) == what
		if !sr.step(p) || p.block || hit || (what == "end" && p.calls > calls) {
			return
		}
	}
}

// runSchedule executes one interleaving; what is left afterwards runs in turn. It returns the number of operations.
func runSchedule(b SBehaviour, n int, seed int64, lens []int, nh, nk int, sched []seg) (log []event, ops map[string]int, fail string) {
	root, err := os.MkdirTemp(scratchRoot(), "dbs")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(root)
	sr := newShared(b, newRand(seed, n), lens, nh, nk, root)
	sr.observeStored()
	apps := sr.apps
	for x, a := range apps {
		sr.start(a, len(apps)+2*x)
	}
	all := func() bool {
		for _, p := range sr.procs {
			if !p.done {
				return false
			}
		}
		return true
	}
	advance := func(a string, k int) {
		p := sr.procs[a]
		for c := 0; !p.done && (k < 0 || c < k); c++ {
			if !sr.step(p) {
				return
			}
			if p.block {
				return
			}
		}
	}
	for x, s := range sched {
		if s.Upto != "" {
			sr.upto(sr.procs[s.App], s.Upto, (n+x)%2 == 0)
			continue
		}
		advance(s.App, s.N)
	}
	rounds := 0
	for !all() && rounds < 50 {
		rounds++
		for _, a := range apps {
			advance(a, -1)
		}
	}
	for _, a := range apps {
		p := sr.procs[a]
		if p.fail != "" {
			fail = "application " + a + ": " + p.fail
		} else if !p.done {
			fail = "application " + a + " waits for ever"
		}
	}
	ops = map[string]int{}
	for a, p := range sr.procs {
		ops[a] = p.ops
	}
	if all() {
		sr.epilogue()
		sr.w.closeAll()
	}
	return sr.log, ops, fail
}

// epilogue: afterwards everything still works, one after the other.
func (sr *sharedRun) epilogue() {
	sr.procs = map[string]*proc{}
	for _, a := range sr.apps {
		i := sr.openHandle(a)
		if i <= len(sr.w.handles[a]) {
			sr.call(Act{App: a, Op: "r", I: i})
			sr.call(Act{App: a, Op: "close", I: i})
		}
	}
	sr.call(Act{App: "b", Op: "open", Name: "n"})
	i := sr.openHandle("b")
	if i > len(sr.w.handles["b"]) {
		return
	}
	sr.call(Act{App: "b", Op: "write", I: i, H: 1, D: 1, K: 1})
	sr.call(Act{App: "b", Op: "commit", I: i})
	sr.call(Act{App: "b", Op: "r", I: i})
	sr.call(Act{App: "a", Op: "open", Name: "n"})
}

func exploreShared(b SBehaviour, n int, seed int64, lens []int, nh, nk, maxSched int, visit func([]seg, []event, string)) {
	log, ops, fail := runSchedule(b, n, seed, lens, nh, nk, nil)
	visit(nil, log, fail)
	scheds := [][]seg{}
	for _, first := range []string{"a", "b"} {
		second := "b"
		if first == "b" {
			second = "a"
		}
		// one switch away in the middle, and two: every pair of points
		for k := 0; k <= ops[first]; k++ {
			scheds = append(scheds, []seg{{App: first, N: k}, {App: second, N: -1}})
			for m := 1; m < ops[second]; m++ {
				scheds = append(scheds, []seg{{App: first, N: k}, {App: second, N: m}, {App: first, N: -1}})
			}
		}
	}
	rng := newRand(seed^0x31, n)
	if len(scheds) > maxSched {
		rng.Shuffle(len(scheds), func(i, j int) { scheds[i], scheds[j] = scheds[j], scheds[i] })
		scheds = scheds[:maxSched]
	}
	// and some with many switches
	for x := 0; x < maxSched/4; x++ {
		s := []seg{}
		for y := 0; y < 3+rng.Intn(8); y++ {
			s = append(s, seg{App: []string{"a", "b"}[rng.Intn(2)], N: 1 + rng.Intn(9)})
		}
		scheds = append(scheds, s)
	}
	for _, s := range scheds {
		log, _, fail := runSchedule(b, n, seed, lens, nh, nk, s)
		visit(s, log, fail)
	}
}

// protocolRun is a line of MCProtocol.tla: processes with the database open or about to open it, and a schedule.
type protocolRun struct {
	Role  map[string]string `json:"role"`
	Old   int               `json:"old"`
	Sched []seg             `json:"sched"`
}

func (pr protocolRun) situation() SBehaviour {
	apps := []string{}
	for a := range pr.Role {
		apps = append(apps, a)
	}
	sort.Strings(apps)
	b := SBehaviour{Scripts: map[string][]string{}, Steps: []Act{{Op: "new", App: "a", Name: "n"}}}
	i := map[string]int{}
	if pr.Old > 0 {
		for k := 0; k < pr.Old; k++ {
			b.Steps = append(b.Steps, Act{Op: "open", App: "a", Name: "n"}, Act{Op: "write", App: "a", Name: "n", I: k + 1, H: 1, D: 1, K: 1},
				Act{Op: "commit", App: "a", Name: "n", I: k + 1}, Act{Op: "close", App: "a", Name: "n", I: k + 1})
		}
		i["a"] = pr.Old
	}
	for x, a := range apps {
		if pr.Role[a] == "out" {
			b.Scripts[a] = []string{"open", "x", "commit", "x", "commit", "r"}
			continue
		}
		b.Scripts[a] = []string{"commit", "x", "commit"}
		b.Steps = append(b.Steps, Act{Op: "open", App: a, Name: "n"}, Act{Op: "write", App: a, Name: "n", I: i[a] + 1, H: x + 1, D: x + 1, K: 1})
	}
	return b
}

// cmdProtocol runs the schedules of MCProtocol.tla.
func cmdProtocol(f map[string]string) {
	seed := int64(atoi(f["seed"], 1))
	max := atoi(f["max"], 1000)
	var lens []int
	if err := json.Unmarshal([]byte(f["lens"]), &lens); err != nil {
		fatal("lens: %v", err)
	}
	nh, nk := atoi(f["nh"], 9), atoi(f["nk"], 1)
	lines := [][]byte{}
	readLines(f["in"], func(n int, line []byte) { lines = append(lines, append([]byte{}, line...)) })
	total := len(lines)
	if len(lines) > max {
		rng := newRand(seed^0x77, 0)
		rng.Shuffle(len(lines), func(i, j int) { lines[i], lines[j] = lines[j], lines[i] })
		lines = lines[:max]
	}
	logs := make([][]event, len(lines))
	runs := make([]protocolRun, len(lines))
	res := &Result{}
	var mu sync.Mutex
	parallel(len(lines), func(n int) {
		noteCase(n%8, lines[n])
		if err := json.Unmarshal(lines[n], &runs[n]); err != nil {
			fatal("line %d: %v", n, err)
		}
		log, _, fail := runSchedule(runs[n].situation(), n, seed, lens, nh, nk, runs[n].Sched)
		logs[n] = log
		mu.Lock()
		res.Cases++
		if fail != "" {
			res.add(Mismatch{Props: blame(log), Case: n, What: "interleaving " + fmt.Sprint(runs[n].Sched) + ": " + fail, Replay: map[string]interface{}{"run": runs[n], "seed": seed, "case": n}})
		}
		mu.Unlock()
	})
	out, err := os.Create(f["trace"])
	if err != nil {
		fatal("%v", err)
	}
	enc := json.NewEncoder(out)
	meta, err := os.Create(f["trace"] + ".meta")
	if err != nil {
		fatal("%v", err)
	}
	menc := json.NewEncoder(meta)
	seen := map[string]bool{}
	faults, crashes := 0, 0
	for n, log := range logs {
		for _, e := range log {
			if e["ev"] == "fault" {
				faults++
			}
			if e["ev"] == "crash" {
				crashes++
			}
		}
		key := jsonStr(log)
		if seen[key] {
			continue
		}
		seen[key] = true
		enc.Encode(event{"ev": "reset", "run": res.Distinct})
		for _, e := range log {
			enc.Encode(e)
			res.Steps++
		}
		menc.Encode(map[string]interface{}{"run": res.Distinct, "schedule": fmt.Sprint(runs[n].Sched), "situation": runs[n], "seed": seed, "case": n, "events": log, "props": blame(log)})
		res.Distinct++
	}
	out.Close()
	meta.Close()
	res.Extra = map[string]interface{}{"schedules of the model": total, "run": res.Cases, "distinct traces": res.Distinct, "faults": faults, "crashes": crashes}
	res.finish(f["out"])
}

// blame tells which properties a run is about.
func blame(log []event) []string {
	out := []string{"C08"}
	for _, e := range log {
		if e["ev"] == "crash" {
			out = append(out, "C04")
		}
		if e["ev"] == "fault" {
			out = append(out, "C05")
		}
	}
	return out
}

func init() {
	commands["db-shared"] = cmdShared
	commands["db-protocol"] = cmdProtocol
}
