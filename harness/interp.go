package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	applications "github.com/steve-care-software/rodkina/libs/interpreters/applications"
	"github.com/steve-care-software/rodkina/libs/interpreters/domain/instructions"
	ins_applications "github.com/steve-care-software/rodkina/libs/interpreters/domain/instructions/applications"
	"github.com/steve-care-software/rodkina/libs/interpreters/domain/instructions/attachments"
	ins_modules "github.com/steve-care-software/rodkina/libs/interpreters/domain/instructions/modules"
	"github.com/steve-care-software/rodkina/libs/interpreters/domain/instructions/parameters"
	"github.com/steve-care-software/rodkina/libs/interpreters/domain/programs"
	"github.com/steve-care-software/rodkina/libs/interpreters/domain/programs/modules"
)

// IIns is an instruction of Interpreter.tla.
type IIns struct {
	K string `json:"k"`
	N string `json:"n"`
	O string `json:"o"`
	I int    `json:"i"`
	V IVal   `json:"v"`
}

// IVal is a value of an assignment.
type IVal struct {
	K string `json:"k"`
	N string `json:"n"`
	P []IIns `json:"p"`
}

// CProg is a compiled program.
type CProg struct {
	Ins []CVal `json:"ins"`
	Out []int  `json:"out"`
}

// CVal is a compiled value or instruction.
type CVal struct {
	K string  `json:"k"`
	I int     `json:"i"`
	N string  `json:"n"`
	P []CProg `json:"p"`
	X []CApp  `json:"x"`
}

// CApp is a compiled application.
type CApp struct {
	I  int    `json:"i"`
	M  int    `json:"m"`
	At []CAtt `json:"at"`
}

// CAtt is an attachment.
type CAtt struct {
	V CVal `json:"v"`
	L int  `json:"l"`
}

// IRV is a value at run time.
type IRV struct {
	K string `json:"k"`
	I int    `json:"i"`
	N string `json:"n"`
	L []IRV  `json:"l"`
}

// ICall is a call of a module.
type ICall struct {
	M int      `json:"m"`
	A []ILocal `json:"a"`
}

// ILocal is a local of a call.
type ILocal struct {
	L int `json:"l"`
	V IRV `json:"v"`
}

// IRun is an execution.
type IRun struct {
	Inputs int     `json:"inputs"`
	Fail   int     `json:"fail"`
	OK     bool    `json:"ok"`
	Outs   []IRV   `json:"outs"`
	Log    []ICall `json:"log"`
}

// ICase is a program with what compiling and executing it gives.
type ICase struct {
	Src  []IIns `json:"src"`
	Mods []int  `json:"mods"`
	OK   bool   `json:"ok"`
	Prog CProg  `json:"prog"`
	Runs []IRun `json:"runs"`
	Seed int64  `json:"seed,omitempty"`
	Case int    `json:"caseno"`
}

// iconc draws what the specification leaves open: the names and their spellings, the constants, the modules.
type iconc struct {
	rng    *rand.Rand
	fold   int
	consts map[string][]byte
	mods   modules.Modules
	cur    *irun
}

// irun is an execution under way.
type irun struct {
	fail    int
	inputs  []interface{}
	nilIn   int // this input is nil
	nilCall int // the answer of this call is nil
	log     []ICall
	bad     string
}

type tokenOf struct {
	k string
	i int
}

var errModule = errors.New("the module fails")

func nameFn(fold int) applications.NameBytesToString {
	switch fold {
	case 1:
		return func(name []byte) string { return strings.ToLower(string(name)) }
	case 2:
		return func(name []byte) string { return strings.TrimSpace(string(name)) }
	}
	return func(name []byte) string { return string(name) }
}

var interpreters [3]sync.Pool

func takeInterpreter(rng *rand.Rand, fold int) applications.Application {
	if rng.Intn(8) > 0 {
		if app, ok := interpreters[fold].Get().(applications.Application); ok {
			return app
		}
	}
	return applications.NewApplication(nameFn(fold))
}

func newIConc(rng *rand.Rand, mods []int) *iconc {
	c := &iconc{rng: rng, fold: rng.Intn(3), consts: map[string][]byte{}}
	for i, n := range []string{"x", "c", "d", "e"} {
		c.consts[n] = append([]byte{}, fmt.Sprintf("%s-%d", n, rng.Intn(1000))...)
		if i == rng.Intn(4) {
			c.consts[n] = []byte{}
		}
	}
	seen := map[string]bool{}
	for _, n := range []string{"x", "c", "d", "e"} {
		if seen[string(c.consts[n])] {
			c.consts[n] = []byte("other " + n)
		}
		seen[string(c.consts[n])] = true
	}
	c.mods = c.library(mods)
	return c
}

// library makes the modules, whose calls are noted here.
func (c *iconc) library(mods []int) modules.Modules {
	list := []modules.Module{}
	for _, k := range c.rng.Perm(len(mods)) {
		m := mods[k]
		mod, err := modules.NewModuleBuilder().Create().WithIndex(uint(m)).WithFunc(func(in map[uint]interface{}) (interface{}, error) {
			return c.called(m, in)
		}).Now()
		must(err)
		list = append(list, mod)
	}
	out, err := modules.NewBuilder().Create().WithList(list).Now()
	must(err)
	return out
}

// spoil writes into every list inside a list that was handed out.
func spoil(v interface{}, by string) {
	list, ok := v.([]interface{})
	if !ok {
		return
	}
	for i := range list {
		spoil(list[i], by)
		list[i] = tokenOf{by, i}
	}
}

// called is what every module does: it notes the call and answers with its number.
func (c *iconc) called(m int, in map[uint]interface{}) (interface{}, error) {
	call := ICall{M: m, A: []ILocal{}}
	for l, v := range in {
		call.A = append(call.A, ILocal{L: int(l), V: c.observe(v)})
	}
	sort.Slice(call.A, func(i, j int) bool { return call.A[i].L < call.A[j].L })
	c.cur.log = append(c.cur.log, call)
	n := len(c.cur.log)
	// what a module does to its locals is its own business
	for l, v := range in {
		spoil(v, "left by a module")
		delete(in, l)
	}
	if in != nil {
		in[99] = "left by a module"
	}
	if n == c.cur.fail {
		return tokenOf{"failed", n}, errModule
	}
	if n == c.cur.nilCall {
		return nil, nil
	}
	return tokenOf{"call", n}, nil
}

func (c *iconc) observe(v interface{}) IRV {
	switch x := v.(type) {
	case nil:
		if c.cur.nilIn >= 0 {
			return IRV{K: "in", I: c.cur.nilIn, L: []IRV{}}
		}
		if c.cur.nilCall > 0 {
			return IRV{K: "call", I: c.cur.nilCall, L: []IRV{}}
		}
		return IRV{K: "?nil", L: []IRV{}}
	case tokenOf:
		return IRV{K: x.k, I: x.i, L: []IRV{}}
	case []byte:
		for n, b := range c.consts {
			if string(b) == string(x) {
				return IRV{K: "const", N: n, L: []IRV{}}
			}
		}
		return IRV{K: fmt.Sprintf("?%q", x), L: []IRV{}}
	case []interface{}:
		out := IRV{K: "list", L: []IRV{}}
		for _, one := range x {
			out.L = append(out.L, c.observe(one))
		}
		return out
	}
	return IRV{K: fmt.Sprintf("?%v", v), L: []IRV{}}
}

// name spells a name one of the ways its function makes the same.
func (c *iconc) name(n string) []byte {
	switch c.fold {
	case 1:
		if c.rng.Intn(2) == 0 {
			return []byte(strings.ToUpper(n))
		}
	case 2:
		return []byte([]string{n, " " + n, n + "\n"}[c.rng.Intn(3)])
	}
	return []byte(n)
}

func (c *iconc) instructions(src []IIns) instructions.Instructions {
	list := []instructions.Instruction{}
	for _, one := range src {
		b := instructions.NewInstructionBuilder().Create()
		switch one.K {
		case "module":
			m, err := ins_modules.NewBuilder().Create().WithName(c.name(one.N)).WithIndex(uint(one.I)).Now()
			must(err)
			b.WithModule(m)
		case "app":
			a, err := ins_applications.NewBuilder().Create().WithName(c.name(one.N)).WithModule(c.name(one.O)).Now()
			must(err)
			b.WithApplication(a)
		case "in", "out":
			pb := parameters.NewBuilder().Create().WithName(c.name(one.N))
			if one.K == "in" {
				pb.IsInput()
			}
			p, err := pb.Now()
			must(err)
			b.WithParameter(p)
		case "assign":
			vb := instructions.NewValueBuilder().Create()
			switch one.V.K {
			case "var":
				vb.WithVariable(c.name(one.V.N))
			case "const":
				vb.WithConstant(append([]byte{}, c.consts[one.V.N]...))
			case "exec":
				vb.WithExecution(c.name(one.V.N))
			case "prog":
				vb.WithInstructions(c.instructions(one.V.P))
			}
			v, err := vb.Now()
			must(err)
			a, err := instructions.NewAssignmentBuilder().Create().WithVariable(c.name(one.N)).WithValue(v).Now()
			must(err)
			b.WithAssignment(a)
		case "attach":
			v, err := attachments.NewVariableBuilder().Create().WithCurrent(c.name(one.O)).WithTarget(uint(one.I)).Now()
			must(err)
			a, err := attachments.NewBuilder().Create().WithVariable(v).WithApplication(c.name(one.N)).Now()
			must(err)
			b.WithAttachment(a)
		case "exec":
			b.WithExecution(c.name(one.N))
		default:
			fatal("unknown instruction %q", one.K)
		}
		ins, err := b.Now()
		must(err)
		list = append(list, ins)
	}
	lb := instructions.NewBuilder().Create().WithList(list)
	if c.rng.Intn(4) == 0 {
		lb.WithRemaining([]byte("what is left of the text"))
	}
	out, err := lb.Now()
	must(err)
	return out
}

// program turns a compiled program into one of the specification.
func (c *iconc) program(p programs.Program) CProg {
	out := CProg{Ins: []CVal{}, Out: []int{}}
	for _, one := range p.Instructions().List() {
		if one.IsValue() == one.IsExecution() {
			out.Ins = append(out.Ins, CVal{K: "?", P: []CProg{}, X: []CApp{}})
			continue
		}
		if one.IsValue() {
			out.Ins = append(out.Ins, c.value(one.Value()))
			continue
		}
		out.Ins = append(out.Ins, CVal{K: "run", P: []CProg{}, X: []CApp{c.app(one.Execution())}})
	}
	if p.HasOutputs() {
		for _, one := range p.Outputs() {
			out.Out = append(out.Out, int(one))
		}
	}
	return out
}

func (c *iconc) value(v programs.Value) CVal {
	out := CVal{P: []CProg{}, X: []CApp{}}
	switch {
	case v.IsInput():
		out.K, out.I = "input", int(*v.Input())
	case v.IsConstant():
		out.K = "const"
		out.N = fmt.Sprintf("?%q", v.Constant())
		for n, b := range c.consts {
			if string(b) == string(v.Constant()) {
				out.N = n
			}
		}
	case v.IsExecution():
		out.K, out.X = "exec", []CApp{c.app(v.Execution())}
	case v.IsProgram():
		out.K, out.P = "prog", []CProg{c.program(v.Program())}
	}
	return out
}

func (c *iconc) app(a programs.Application) CApp {
	out := CApp{I: int(a.Index()), M: int(a.Module().Index()), At: []CAtt{}}
	if a.HasAttachments() {
		for _, one := range a.Attachments().List() {
			out.At = append(out.At, CAtt{V: c.value(one.Value()), L: int(one.Local())})
		}
	}
	return out
}

// run executes a program and observes what it does.
func (c *iconc) run(app applications.Application, p programs.Program, ninputs, fail int) (IRun, string) {
	cur := &irun{fail: fail, nilIn: -1, log: []ICall{}, inputs: []interface{}{}}
	switch c.rng.Intn(3) {
	case 0:
		if ninputs > 0 {
			cur.nilIn = c.rng.Intn(ninputs)
		}
	case 1:
		cur.nilCall = 1 + c.rng.Intn(4)
	}
	for i := 0; i < ninputs; i++ {
		if i == cur.nilIn {
			cur.inputs = append(cur.inputs, nil)
			continue
		}
		cur.inputs = append(cur.inputs, tokenOf{"in", i})
	}
	c.cur = cur
	var in []interface{}
	if ninputs > 0 || c.rng.Intn(2) == 0 {
		in = append(make([]interface{}, 0, ninputs+3), cur.inputs...)
	}
	outs, err := app.Execute(in, p)
	out := IRun{Inputs: ninputs, Fail: fail, OK: err == nil, Outs: []IRV{}, Log: cur.log}
	bad := ""
	for i := range in {
		if in[i] != cur.inputs[i] {
			bad = "the execution changed its inputs"
		}
	}
	if err != nil {
		if len(outs) > 0 {
			bad = fmt.Sprintf("a failing execution has outputs: %v", outs)
		}
		return out, bad
	}
	for _, one := range outs {
		out.Outs = append(out.Outs, c.observe(one))
	}
	// the outputs are the caller's
	spoil(outs, "left by the caller")
	return out, bad
}

func cmdInterpReplay(f map[string]string) {
	seed := int64(atoi(f["seed"], 1))
	res := &Result{}
	var mu sync.Mutex
	mods := []int{0, 1, 7}
	runPool(f["in"], func(n int, line []byte) {
		var ic ICase
		if err := json.Unmarshal(line, &ic); err != nil {
			fatal("case %d: %v", n, err)
		}
		ic.Seed, ic.Case = seed, n
		rng := newRand(seed, n)
		c := newIConc(rng, mods)
		app := takeInterpreter(rng, c.fold)
		diffs := []Mismatch{}
		report := func(prop, format string, args ...interface{}) {
			diffs = append(diffs, Mismatch{Props: []string{prop}, Case: n, What: fmt.Sprintf("program %s: ", jsonStr(ic.Src)) + fmt.Sprintf(format, args...), Replay: ic})
		}
		steps := 1
		var prog programs.Program
		msg := guard(20*time.Second, func() {
			ins := c.instructions(ic.Src)
			var err error
			prog, err = app.Compile(c.mods, ins)
			if (err == nil) != ic.OK || (err != nil && prog != nil) {
				report("I01", "compiles: expected %v, got %v, %v", ic.OK, err, prog != nil)
				prog = nil
				return
			}
			if err != nil {
				prog = nil
				return
			}
			got := c.program(prog)
			if x, y := jsonStr(ic.Prog), jsonStr(got); x != y {
				report("I01", "compiled: expected %s, got %s", x, y)
			}
			if rng.Intn(4) == 0 {
				again, err := app.Compile(c.mods, ins)
				if err != nil || jsonStr(c.program(again)) != jsonStr(got) {
					report("I01", "compiling the same program again gives something else: %v", err)
				}
				if jsonStr(c.program(prog)) != jsonStr(got) {
					report("I01", "compiling the program again changed the one compiled before")
				}
			}
			if rng.Intn(4) == 0 && len(ic.Runs) > 0 {
				// other modules of the same indexes
				other := *c
				other.mods = other.library(mods)
				c.cur = &irun{fail: -1, nilIn: -1}
				again, err := app.Compile(other.mods, ins)
				if err != nil || jsonStr(other.program(again)) != jsonStr(got) {
					report("I01", "compiling the same instructions with other modules gives something else: %v", err)
				} else {
					want := ic.Runs[rng.Intn(len(ic.Runs))]
					ran, bad := other.run(app, again, want.Inputs, want.Fail)
					if len(c.cur.log) > 0 {
						report("I01", "the same instructions compiled with other modules call those of the first compilation")
					} else if x, y := jsonStr(want), jsonStr(ran); x != y || bad != "" {
						report("I02", "compiled with other modules: expected %s, got %s %s", x, y, bad)
					}
				}
			}
		})
		if msg != "" {
			if strings.HasPrefix(msg, "hang") {
				hung()
			}
			report("I01", "%s", msg)
		}
		if prog != nil && len(diffs) == 0 {
			for _, k := range append(rng.Perm(len(ic.Runs)), rng.Perm(len(ic.Runs))[:1]...) {
				want := ic.Runs[k]
				var got IRun
				bad := ""
				msg := guard(20*time.Second, func() { got, bad = c.run(app, prog, want.Inputs, want.Fail) })
				steps++
				if msg != "" || bad != "" {
					if strings.HasPrefix(msg, "hang") {
						hung()
					}
					report("I02", "with %d inputs, call %d failing: %s%s", want.Inputs, want.Fail, msg, bad)
					break
				}
				if x, y := jsonStr(want), jsonStr(got); x != y {
					report("I02", "expected %s, got %s", x, y)
					break
				}
			}
			if got := c.program(prog); jsonStr(got) != jsonStr(ic.Prog) {
				report("I02", "executing the program changed it: %s", jsonStr(got))
			}
		}
		interpreters[c.fold].Put(app)
		mu.Lock()
		defer mu.Unlock()
		res.Cases++
		res.Steps += steps
		for _, d := range diffs {
			res.add(d)
		}
	})
	res.Distinct = res.Cases
	res.finish(f["out"])
}

// -------------------------------------------------------------------------
// random programs

type srcGen struct {
	rng  *rand.Rand
	mods []int
}

func (g *srcGen) pick(list []string, other string) string {
	if len(list) == 0 || g.rng.Intn(60) == 0 {
		return other
	}
	return list[g.rng.Intn(len(list))]
}

// program draws a program whose names mostly resolve.
func (g *srcGen) program(length, depth int) []IIns {
	rng := g.rng
	names := []string{"a", "b", "c", "d", "e"}
	ms, as, inputs, outputs, vals := []string{}, []string{}, []string{}, []string{}, []string{}
	fresh := func(used []string) string {
		for k := 0; k < 20; k++ {
			n := names[rng.Intn(len(names))]
			ok := rng.Intn(60) == 0
			if !ok {
				ok = true
				for _, one := range used {
					ok = ok && one != n
				}
			}
			if ok {
				return n
			}
		}
		return "f"
	}
	out := []IIns{}
	no := IVal{P: []IIns{}}
	add := func(one IIns) { out = append(out, one) }
	for len(out) < length {
		switch r := rng.Intn(20); {
		case r < 2 && len(ms) < 4 || len(ms) == 0:
			i := g.mods[rng.Intn(len(g.mods))]
			if rng.Intn(60) == 0 {
				i = 3
			}
			one := IIns{K: "module", N: fresh(ms), I: i, V: no}
			ms = append(ms, one.N)
			add(one)
		case r < 4 && len(as) < 4 || len(as) == 0:
			one := IIns{K: "app", N: fresh(as), O: g.pick(ms, "z"), V: no}
			as = append(as, one.N)
			add(one)
		case r < 6 && len(inputs)+len(outputs) < 5:
			one := IIns{K: []string{"in", "out"}[rng.Intn(2)], N: fresh(append(append([]string{}, inputs...), outputs...)), V: no}
			if one.K == "in" {
				inputs = append(inputs, one.N)
			} else {
				outputs = append(outputs, one.N)
			}
			add(one)
		case r < 12:
			v := IVal{P: []IIns{}}
			switch rng.Intn(7) {
			case 0, 1:
				v.K, v.N = "const", []string{"x", "c", "d", "e"}[rng.Intn(4)]
			case 2, 3:
				if len(inputs) == 0 {
					continue
				}
				v.K, v.N = "var", g.pick(inputs, "z")
			case 4, 5:
				v.K, v.N = "exec", g.pick(as, "z")
			default:
				if depth == 0 {
					continue
				}
				v.K, v.P = "prog", g.program(3+rng.Intn(8), depth-1)
			}
			n := names[rng.Intn(len(names))]
			if len(outputs) > 0 && rng.Intn(2) == 0 {
				n = outputs[rng.Intn(len(outputs))]
			}
			vals = append(vals, n)
			add(IIns{K: "assign", N: n, V: v})
		case r < 17:
			pool := append(append([]string{}, inputs...), vals...)
			if len(pool) == 0 {
				continue
			}
			add(IIns{K: "attach", N: g.pick(as, "z"), O: g.pick(pool, "z"), I: rng.Intn(4), V: no})
		default:
			add(IIns{K: "exec", N: g.pick(as, "z"), V: no})
		}
	}
	return out
}

func cmdInterpRandom(f map[string]string) {
	seed := int64(atoi(f["seed"], 1))
	runs := atoi(f["runs"], 100)
	res := &Result{}
	fh, err := os.Create(f["out"])
	if err != nil {
		fatal("%v", err)
	}
	defer fh.Close()
	compiled, executions, failed := 0, 0, 0
	var mu sync.Mutex
	parallel(runs, func(n int) {
		rng := newRand(seed, 900000+n)
		mods := [][]int{{0, 1, 7}, {5}, {0, 1}, {2, 1 << 20}}[rng.Intn(4)]
		g := &srcGen{rng: rng, mods: mods}
		ic := ICase{Src: g.program(4+rng.Intn(14), 2), Mods: mods, Prog: CProg{Ins: []CVal{}, Out: []int{}}, Runs: []IRun{}, Seed: seed, Case: n}
		c := newIConc(rng, mods)
		app := takeInterpreter(rng, c.fold)
		diffs := []Mismatch{}
		report := func(prop, what string) {
			diffs = append(diffs, Mismatch{Props: []string{prop}, Case: n, What: fmt.Sprintf("program %s: %s", jsonStr(ic.Src), what), Replay: ic})
		}
		var prog programs.Program
		msg := guard(20*time.Second, func() {
			got, err := app.Compile(c.mods, c.instructions(ic.Src))
			if err == nil {
				prog, ic.OK, ic.Prog = got, true, c.program(got)
			} else if got != nil {
				report("I01", "an error comes with a program")
			}
		})
		if msg != "" {
			report("I01", msg)
		}
		bad := 0
		for k := 0; prog != nil && k < 6 && msg == ""; k++ {
			fail := 0
			if k >= 3 {
				fail = 1 + rng.Intn(6)
			}
			var got IRun
			why := ""
			msg = guard(20*time.Second, func() { got, why = c.run(app, prog, rng.Intn(6), fail) })
			if msg != "" || why != "" {
				report("I02", msg+why)
				break
			}
			if len(got.Log) > 300 {
				break // programs that call themselves over and over are left to their owners
			}
			if !got.OK {
				bad++
			}
			ic.Runs = append(ic.Runs, got)
		}
		if strings.HasPrefix(msg, "hang") {
			hung()
		}
		interpreters[c.fold].Put(app)
		mu.Lock()
		defer mu.Unlock()
		res.Cases++
		res.Steps += 1 + len(ic.Runs)
		for _, d := range diffs {
			res.add(d)
		}
		if ic.OK {
			compiled++
		}
		executions += len(ic.Runs)
		failed += bad
		fh.Write(append([]byte(jsonStr(ic)), '\n'))
	})
	res.Distinct = res.Cases
	res.Extra = map[string]interface{}{"programs that compile": compiled, "executions": executions, "failing executions": failed}
	res.finish(f["out"] + ".res")
}

func init() {
	commands["interp-replay"] = cmdInterpReplay
	commands["interp-random"] = cmdInterpRandom
}
