package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"sync"
	"time"

	"github.com/steve-care-software/rodkina/libs/asts/domain/grammars/coverages"
)

// CElem names an element of a document.
type CElem struct {
	N string `json:"n"`
	L int    `json:"l"`
	C int    `json:"c"`
}

// CExec is what a suite gives.
type CExec struct {
	V    bool            `json:"v"`
	I    []int           `json:"i"`
	OK   bool            `json:"ok"`
	End  int             `json:"end"`
	Tree json.RawMessage `json:"tree"`
}

// CEntry is the coverage of a token.
type CEntry struct {
	T string  `json:"t"`
	X []CExec `json:"x"`
}

// CComposed is what composing a token gives.
type CComposed struct {
	OK    bool  `json:"ok"`
	Bytes []int `json:"bytes"`
}

// CCase is a document with what composing and covering it gives.
type CCase struct {
	Doc       PDoc        `json:"doc"`
	Composed  []CComposed `json:"composed"`
	Coverages []CEntry    `json:"coverages"`
	Covered   []CElem     `json:"covered"`
	Uncovered []CElem     `json:"uncovered"`
	Seed      int64       `json:"seed,omitempty"`
	Case      int         `json:"caseno,omitempty"`
}

// elements flattens a map of elements; names are checked against the document.
func (c *pconc) elements(d PDoc, m map[string]map[uint]map[uint]string, bad func(string, string, ...interface{})) []CElem {
	out := []CElem{}
	for name, lines := range m {
		for l, els := range lines {
			for e, elName := range els {
				out = append(out, CElem{N: c.unname(name), L: int(l) + 1, C: int(e) + 1})
				for _, t := range d.Tokens {
					if t.N != c.unname(name) || int(l) >= len(t.L) || int(e) >= len(t.L[l]) {
						continue
					}
					if want := c.elementName(d, t.L[l][e]); want != elName {
						bad("A07", "the element %d of line %d of %s is called %q, expected %q", e, l, t.N, elName, want)
					}
				}
			}
		}
	}
	sortElems(out)
	return out
}

func (c *pconc) elementName(d PDoc, ct PCont) string {
	switch ct.K {
	case "value":
		return c.value(ct.B).Name()
	case "token":
		return c.name(d.Tokens[ct.T-1].N)
	}
	return c.name(ct.N)
}

func sortElems(list []CElem) {
	sort.Slice(list, func(i, j int) bool { return jsonStr(list[i]) < jsonStr(list[j]) })
}

// entries lists a coverage, every distinct entry once.
func (c *pconc) entries(cov coverages.Coverages, bad func(string, string, ...interface{})) []CEntry {
	out := []CEntry{}
	if cov == nil {
		return out
	}
	seen := map[string]bool{}
	anyError := false
	for _, one := range cov.List() {
		en := CEntry{T: c.unname(one.Token().Name()), X: []CExec{}}
		execErr := false
		suites := one.Token().Suites().List()
		list := one.Executions().List()
		if len(list) != len(suites) {
			bad("A07", "the token %s has %d suites and %d executions", en.T, len(suites), len(list))
		}
		for i, ex := range list {
			suite := ex.Expectation()
			if i < len(suites) && suites[i] != suite {
				bad("A07", "execution %d of the token %s is not its suite's", i, en.T)
			}
			spelled := []byte{}
			x := CExec{V: suite.IsValid(), I: []int{}, Tree: json.RawMessage("[]")}
			for _, el := range suite.Content().List() {
				for k := uint(0); k < el.Occurences(); k++ {
					x.I = append(x.I, c.unbyte(el.Value().Number()))
					spelled = append(spelled, el.Value().Number())
				}
			}
			res := ex.Result()
			if res.IsTree() == res.IsError() {
				bad("A07", "execution %d of the token %s has a tree: %v, an error: %v", i, en.T, res.IsTree(), res.IsError())
			}
			execErr = execErr || res.IsError()
			if res.IsTree() && res.Tree().Block().HasSuccessful() {
				rest := []byte{}
				if res.Tree().HasRemaining() {
					rest = res.Tree().Remaining()
				}
				x.OK, x.End = true, len(x.I)-len(rest)+1
				x.Tree, _ = json.Marshal(c.tree(res.Tree()))
				if !bytes.HasSuffix(spelled, rest) || !c.escaping && !bytes.Equal(append(append([]byte{}, res.Tree().Bytes(true)...), rest...), spelled) {
					bad("A06", "the suite %d of the token %s spells %v, it was fed %v and %v", i, en.T, spelled, res.Tree().Bytes(true), rest)
				}
			}
			en.X = append(en.X, x)
		}
		if one.Executions().ContainsError() != execErr {
			bad("A07", "the executions of %s say they contain an error: %v, they do: %v", en.T, !execErr, execErr)
		}
		anyError = anyError || execErr
		if key := jsonStr(en); !seen[key] {
			seen[key] = true
			out = append(out, en)
		}
	}
	if cov.ContainsError() != anyError {
		bad("A07", "the coverages say they contain an error: %v, they do: %v", !anyError, anyError)
	}
	sort.Slice(out, func(i, j int) bool { return jsonStr(out[i]) < jsonStr(out[j]) })
	return out
}

// useCoverage composes and covers the first grammar of a document.
func (c *pconc) useCoverage(d PDoc, b *built, bad func(string, string, ...interface{})) CCase {
	out := CCase{Doc: d, Composed: []CComposed{}}
	app := takeParser(rand.New(rand.NewSource(int64(len(jsonStr(d))))))
	defer parsers.Put(app)
	kept := map[int][]byte{}
	c.escaping = d.escapes()
	for t := range d.Tokens {
		got, err := app.Compose(b.tokens[t+1])
		if err == nil {
			out.Composed = append(out.Composed, CComposed{OK: true, Bytes: c.unbytes(got)})
			kept[t] = got
			if again, err := app.Compose(b.tokens[t+1]); err != nil || jsonStr(c.unbytes(again)) != jsonStr(out.Composed[t].Bytes) {
				bad("A06", "composing the token %s again gives %v (%v)", d.Tokens[t].N, again, err)
			}
		} else {
			out.Composed = append(out.Composed, CComposed{Bytes: []int{}})
		}
	}
	// what was composed belongs to the caller
	for t, got := range kept {
		if jsonStr(c.unbytes(got)) != jsonStr(out.Composed[t].Bytes) {
			bad("A06", "the bytes composed for %s changed afterwards", d.Tokens[t].N)
		}
		for i := range got {
			got[i] ^= 0xff
		}
	}
	unc, err := app.Uncovered(b.grammars[1])
	if err != nil {
		bad("A07", "uncovered: %v", err)
	}
	out.Uncovered = c.elements(d, unc, bad)
	cov, err := app.Coverages(b.grammars[1])
	if err != nil {
		bad("A07", "coverages: %v", err)
		return out
	}
	out.Coverages = c.entries(cov, bad)
	got, err := app.Covered(cov)
	if err != nil {
		bad("A07", "covered: %v", err)
	}
	out.Covered = c.elements(d, got, bad)
	return out
}

// normal brings what the specification says into the order and form of what is observed.
func (cc *CCase) normal() {
	for i := range cc.Coverages {
		for j := range cc.Coverages[i].X {
			x := &cc.Coverages[i].X[j]
			if !x.OK {
				x.End, x.Tree = 0, json.RawMessage("[]")
				continue
			}
			var t PTree
			if err := json.Unmarshal(x.Tree, &t); err != nil {
				fatal("tree %s: %v", x.Tree, err)
			}
			x.Tree, _ = json.Marshal(t)
		}
	}
	sort.Slice(cc.Coverages, func(i, j int) bool { return jsonStr(cc.Coverages[i]) < jsonStr(cc.Coverages[j]) })
	sortElems(cc.Covered)
	sortElems(cc.Uncovered)
}

func cmdCoverReplay(f map[string]string) {
	seed := int64(atoi(f["seed"], 1))
	res := &Result{}
	var mu sync.Mutex
	runPool(f["in"], func(n int, line []byte) {
		var want CCase
		if err := json.Unmarshal(line, &want); err != nil {
			fatal("case %d: %v", n, err)
		}
		want.normal()
		c := newPConc(newRand(seed, n))
		b := c.build(want.Doc)
		diffs := []Mismatch{}
		bad := func(prop, format string, args ...interface{}) {
			diffs = append(diffs, Mismatch{Props: []string{prop}, Case: n, What: fmt.Sprintf(format, args...), Replay: want})
		}
		var got CCase
		msg := guard(30*time.Second, func() { got = c.useCoverage(want.Doc, b, bad) })
		if msg == "" {
			for _, one := range []struct {
				prop, what string
				a, b       interface{}
			}{
				{"A06", "composed", want.Composed, got.Composed}, {"A07", "coverages", want.Coverages, got.Coverages},
				{"A07", "covered", want.Covered, got.Covered}, {"A07", "uncovered", want.Uncovered, got.Uncovered},
			} {
				if x, y := jsonStr(one.a), jsonStr(one.b); x != y {
					bad(one.prop, "%s: expected %s, got %s", one.what, x, y)
				}
			}
		}
		mu.Lock()
		defer mu.Unlock()
		res.Cases++
		if msg != "" {
			hung()
			res.add(Mismatch{Props: []string{"A06", "A07"}, Case: n, What: msg, Replay: want})
			return
		}
		for _, d := range diffs {
			res.add(d)
		}
	})
	res.Distinct, res.Steps = res.Cases, res.Cases
	res.finish(f["out"])
}

func cmdCoverRandom(f map[string]string) {
	seed := int64(atoi(f["seed"], 1))
	runs := atoi(f["runs"], 100)
	res := &Result{}
	fh, err := os.Create(f["out"])
	if err != nil {
		fatal("%v", err)
	}
	defer fh.Close()
	var mu sync.Mutex
	parallel(runs, func(n int) {
		rng := newRand(seed, 900000+n)
		g := newDocGen(rng, f["features"])
		d := g.doc()
		g.suites(&d)
		c := newPConc(rng)
		b := c.build(d)
		diffs := []Mismatch{}
		bad := func(prop, format string, args ...interface{}) {
			diffs = append(diffs, Mismatch{Props: []string{prop}, Case: n, What: fmt.Sprintf(format, args...), Replay: d})
		}
		var got CCase
		t0 := time.Now()
		msg := guard(20*time.Second, func() { got = c.useCoverage(d, b, bad) })
		took := time.Since(t0)
		got.Seed, got.Case = seed, n
		mu.Lock()
		defer mu.Unlock()
		res.Cases++
		if msg != "" {
			hung()
			res.add(Mismatch{Props: []string{"A06", "A07"}, Case: n, What: msg, Replay: d})
			return
		}
		for _, d := range diffs {
			res.add(d)
		}
		if took > 20*time.Millisecond {
			return
		}
		line, err := json.Marshal(got)
		if err != nil {
			fatal("%v", err)
		}
		fh.Write(append(line, '\n'))
	})
	res.Distinct, res.Steps = res.Cases, res.Cases
	res.finish(f["out"] + ".res")
}

// suites gives tokens suites that have a chance to match, and composed lines.
func (g *docGen) suites(d *PDoc) {
	for t := range d.Tokens {
		d.Tokens[t].S = []PSuite{}
		if g.rng.Intn(6) == 0 {
			d.Tokens[t].L = [][]PCont{{}}
			for k := 1 + g.rng.Intn(3); k > 0; k-- {
				d.Tokens[t].L[0] = append(d.Tokens[t].L[0], PCont{K: "compose", N: "C", C: g.spell()})
			}
		}
		for k := g.rng.Intn(3); k > 0; k-- {
			in := []int{}
			g.yield(*d, t+1, d.Grammars[0].Ch, 2, &in)
			if g.rng.Intn(3) == 0 {
				in = append(in, 1+g.rng.Intn(g.nbytes))
			}
			if len(in) > 10 {
				in = in[:10]
			}
			if len(in) == 0 {
				in = []int{1}
			}
			s := PSuite{V: g.rng.Intn(3) > 0, C: []PSpell{}}
			for i := 0; i < len(in); {
				o := 1
				for i+o < len(in) && in[i+o] == in[i] && g.rng.Intn(3) > 0 {
					o++
				}
				s.C = append(s.C, PSpell{B: in[i], O: o})
				i += o
			}
			d.Tokens[t].S = append(d.Tokens[t].S, s)
		}
	}
}

func init() {
	commands["cover-replay"] = cmdCoverReplay
	commands["cover-random"] = cmdCoverRandom
}
