package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"strings"
	"sync"
	"time"

	"github.com/steve-care-software/rodkina/libs/asts/domain/trees"
	applications "github.com/steve-care-software/rodkina/libs/queries/applications"
	"github.com/steve-care-software/rodkina/libs/queries/domain/queries"
)

// QDoc is a document with the way its values are named.
type QDoc struct {
	PDoc
	VN int `json:"vn"`
}

// QQuery is a query of Query.tla.
type QQuery struct {
	T  string   `json:"t"`
	R  string   `json:"r"`
	E  string   `json:"e"`
	I  int      `json:"i"`
	C  int      `json:"c"`
	In string   `json:"in"`
	F  []QFetch `json:"f"`
	Fn string   `json:"fn"`
}

// QFetch is a fetcher: a query, or the name of one.
type QFetch struct {
	Q []QQuery `json:"q"`
	N string   `json:"n"`
}

// QInst is an instance: a place, or what a query function made of its instances.
type QInst struct {
	P []int   `json:"p"`
	N string  `json:"n"`
	V []QInst `json:"v"`
}

// QCall is a call of one of the caller's functions.
type QCall struct {
	N string  `json:"n"`
	K string  `json:"k"`
	A []QInst `json:"a"`
}

// QAnswer is what a query answers.
type QAnswer struct {
	St  string  `json:"st"`
	V   []QInst `json:"v"`
	Log []QCall `json:"log"`
}

// QPlace is what fetching by name gives.
type QPlace struct {
	OK bool  `json:"ok"`
	P  []int `json:"p"`
}

// QRun is an input with what the queries answer on its tree.
type QRun struct {
	I     []int      `json:"i"`
	Tree  PTree      `json:"tree"`
	R     []QAnswer  `json:"r"`
	Fetch [][]QPlace `json:"fetch"`
}

// QCase is a document with its queries.
type QCase struct {
	Doc   QDoc     `json:"doc"`
	Qs    []QQuery `json:"qs"`
	Names []string `json:"names"`
	Runs  []QRun   `json:"runs"`
}

// QRecord is a recorded tree with queries and fetches, for QueryTrace.tla.
type QRecord struct {
	Doc   QDoc      `json:"doc"`
	Input []int     `json:"input"`
	Tree  PTree     `json:"tree"`
	Qs    []QQuery  `json:"qs"`
	R     []QAnswer `json:"r"`
	Fetch []QAsked  `json:"fetch"`
	Seed  int64     `json:"seed"`
	Case  int       `json:"caseno"`
}

// QAsked is a fetch that was asked.
type QAsked struct {
	N string `json:"n"`
	K int    `json:"k"`
	R QPlace `json:"r"`
}

// elName turns the name of an element of the specification into a real one.
func (c *pconc) elName(n string) string {
	if n == "C" || strings.HasPrefix(n, "v") {
		return n
	}
	return c.name(n)
}

// qrun is what the caller's functions look at while a query runs.
type qrun struct {
	places map[trees.Content][]int
	log    []QCall
}

func (r *qrun) leaf(ct trees.Content) QInst {
	p, ok := r.places[ct]
	if !ok {
		p = []int{-1}
	}
	return QInst{P: p, V: []QInst{}}
}

func (r *qrun) leaves(list []trees.Content) []QInst {
	out := []QInst{}
	for _, one := range list {
		out = append(out, r.leaf(one))
	}
	return out
}

func (r *qrun) call(n, k string, args []QInst) {
	r.log = append(r.log, QCall{N: n, K: k, A: args})
}

// places maps the contents of a tree to their paths.
func placesOf(t trees.Tree, path []int, out map[trees.Content][]int) {
	for i, el := range t.Block().Successful().Elements().List() {
		for j, ct := range el.Contents().List() {
			p := append(append([]int{}, path...), i+1, j+1)
			out[ct] = p
			if ct.IsTree() {
				placesOf(ct.Tree(), p, out)
			}
		}
	}
}

var errQuery = errors.New("the caller's function fails")

func toInterfaces(list []QInst) []interface{} {
	out := []interface{}{}
	for _, one := range list {
		out = append(out, one)
	}
	return out
}

func fromInterfaces(list []interface{}) []QInst {
	out := []QInst{}
	for _, one := range list {
		if ins, ok := one.(QInst); ok {
			out = append(out, ins)
			continue
		}
		out = append(out, QInst{N: fmt.Sprintf("?%v", one), P: []int{}, V: []QInst{}})
	}
	return out
}

// query builds a query; its functions report to the current run.
func (c *pconc) query(q QQuery, cur **qrun) queries.Query {
	element, err := queries.NewElementBuilder().Create().WithName(c.elName(q.E)).WithIndex(uint(q.I)).Now()
	must(err)
	tb := queries.NewTokenBuilder().Create().WithName(c.name(q.T)).WithReverseName(c.elName(q.R)).WithElement(element)
	if q.C >= 0 {
		tb.WithContent(uint(q.C))
	}
	token, err := tb.Now()
	must(err)

	ib := queries.NewInsideBuilder().Create()
	if q.In == "fetch" {
		list := []queries.Fetcher{}
		for _, one := range q.F {
			fb := queries.NewFetcherBuilder().Create()
			if len(one.Q) > 0 {
				fb.WithQuery(c.query(one.Q[0], cur))
			} else {
				fb.WithRecursive(c.name(one.N))
			}
			f, err := fb.Now()
			must(err)
			list = append(list, f)
		}
		fs, err := queries.NewFetchersBuilder().Create().WithList(list).Now()
		must(err)
		ib.WithFetchers(fs)
	} else {
		cb := queries.NewContentFnBuilder().Create()
		switch q.In {
		case "first", "twice", "sfail":
			cb.WithSingle(func(ct trees.Content) ([]interface{}, error) {
				if q.In == "sfail" {
					return nil, errQuery
				}
				l := (*cur).leaf(ct)
				(*cur).call(q.T, q.In, []QInst{l})
				if q.In == "twice" {
					return []interface{}{l, l}, nil
				}
				return []interface{}{l}, nil
			})
		default:
			cb.WithMulti(func(list []trees.Content) ([]interface{}, error) {
				ls := (*cur).leaves(list)
				(*cur).call(q.T, q.In, ls)
				if q.In == "cfail" {
					return toInterfaces(ls), errQuery
				}
				if q.In == "empty" {
					return nil, nil
				}
				return toInterfaces(ls), nil
			})
		}
		fn, err := cb.Now()
		must(err)
		ib.WithFn(fn)
	}
	inside, err := ib.Now()
	must(err)

	qb := queries.NewQueryFnBuilder().Create()
	if q.Fn == "one" {
		qb.WithSingle(func(ins interface{}) (interface{}, bool, error) {
			list := fromInterfaces([]interface{}{ins})
			(*cur).call(q.T, q.Fn, list)
			return QInst{P: []int{}, N: q.T, V: list}, true, nil
		})
	} else {
		qb.WithMulti(func(ins []interface{}) (interface{}, bool, error) {
			list := fromInterfaces(ins)
			(*cur).call(q.T, q.Fn, list)
			if q.Fn == "qfail" {
				return nil, true, errQuery
			}
			return QInst{P: []int{}, N: q.T, V: list}, q.Fn != "drop", nil
		})
	}
	fn, err := qb.Now()
	must(err)
	out, err := queries.NewBuilder().Create().WithToken(token).WithInside(inside).WithFn(fn).Now()
	must(err)
	return out
}

// ask executes a query and observes the answer.
func ask(app applications.Application, q queries.Query, t trees.Tree, places map[trees.Content][]int, cur **qrun) (QAnswer, string) {
	*cur = &qrun{places: places, log: []QCall{}}
	ins, valid, rest, err := app.Execute(q, t)
	if err != nil {
		if valid || ins != nil {
			return QAnswer{}, fmt.Sprintf("an error comes with an answer: %v, %v", valid, ins)
		}
		return QAnswer{St: "error", V: []QInst{}, Log: []QCall{}}, ""
	}
	want := []byte{}
	if t.HasRemaining() {
		want = t.Remaining()
	}
	if !bytes.Equal(rest, want) {
		return QAnswer{}, fmt.Sprintf("remaining bytes %v, those of the tree are %v", rest, want)
	}
	if !valid {
		return QAnswer{St: "none", V: []QInst{}, Log: (*cur).log}, ""
	}
	return QAnswer{St: "ok", V: fromInterfaces([]interface{}{ins}), Log: (*cur).log}, ""
}

// fetchPlace finds where what Fetch returns is.
func fetchPlace(t trees.Tree, name string, k int) (QPlace, string) {
	tree, element, err := t.Fetch(name, uint(k))
	if err != nil {
		if tree != nil || element != nil {
			return QPlace{}, "an error comes with an answer"
		}
		return QPlace{P: []int{}}, ""
	}
	if (tree == nil) == (element == nil) {
		return QPlace{}, "neither or both of a tree and an element"
	}
	found := 0
	out := QPlace{OK: true}
	var walk func(x trees.Tree, path []int)
	walk = func(x trees.Tree, path []int) {
		if tree != nil && x == tree {
			found++
			out.P = append([]int{}, path...)
		}
		for i, el := range x.Block().Successful().Elements().List() {
			if element != nil && el == element {
				found++
				out.P = append(append([]int{}, path...), i+1)
			}
			for j, ct := range el.Contents().List() {
				if ct.IsTree() {
					walk(ct.Tree(), append(append([]int{}, path...), i+1, j+1))
				}
			}
		}
	}
	walk(t, []int{})
	if found == 0 {
		return QPlace{}, "what was fetched is not in the tree"
	}
	return out, ""
}

// fetchElements checks Elements.Fetch, which finds the elements of a line by their name.
func fetchElements(t trees.Tree) string {
	els := t.Block().Successful().Elements()
	count := map[string]int{}
	for _, el := range els.List() {
		if el.HasGrammar() {
			count[el.Grammar().Name()]++
		}
	}
	for _, el := range els.List() {
		if !el.HasGrammar() {
			continue
		}
		name := el.Grammar().Name()
		got, err := els.Fetch(name)
		if err != nil {
			return fmt.Sprintf("element %q of a line is not found: %v", name, err)
		}
		if got.Grammar() == nil || got.Grammar().Name() != name || (count[name] == 1 && got != el) {
			return fmt.Sprintf("fetching element %q of a line gives another", name)
		}
	}
	if _, err := els.Fetch("there is no such element"); err == nil {
		return "an element nobody declared is found"
	}
	return ""
}

var queriers sync.Pool

func takeQuerier(rng *rand.Rand) applications.Application {
	if rng.Intn(8) > 0 {
		if app, ok := queriers.Get().(applications.Application); ok {
			return app
		}
	}
	return applications.NewApplication()
}

func cmdQueryReplay(f map[string]string) {
	seed := int64(atoi(f["seed"], 1))
	res := &Result{}
	var mu sync.Mutex
	runPool(f["in"], func(n int, line []byte) {
		var qc QCase
		if err := json.Unmarshal(line, &qc); err != nil {
			fatal("case %d: %v", n, err)
		}
		rng := newRand(seed, n)
		c := newPConc(rng)
		c.names = qc.Doc.VN
		b := c.build(qc.Doc.PDoc)
		app := takeQuerier(rng)
		parser := takeParser(rng)
		var cur *qrun
		built := make([]queries.Query, len(qc.Qs))
		steps := 0
		diffs := []Mismatch{}
		for r := range qc.Runs {
			run := qc.Runs[r]
			report := func(prop string, what string, replay interface{}) {
				diffs = append(diffs, Mismatch{Props: []string{prop}, Case: n, What: what, Replay: map[string]interface{}{"doc": qc.Doc, "input": run.I, "asked": replay, "seed": seed, "case": n}})
			}
			var t trees.Tree
			msg := guard(60*time.Second, func() {
				got, err := parser.Execute(b.grammars[1], c.input(run.I))
				if err == nil && got != nil && got.Block().HasSuccessful() && jsonStr(c.tree(got)) == jsonStr(run.Tree) {
					t = got
				}
			})
			if msg != "" || t == nil {
				report("A01", "the tree is not the one of the specification "+msg, nil)
				continue
			}
			places := map[trees.Content][]int{}
			placesOf(t, nil, places)
			before := jsonStr(c.tree(t))
			for _, k := range rng.Perm(len(qc.Qs)) {
				if built[k] == nil || rng.Intn(50) == 0 {
					built[k] = c.query(qc.Qs[k], &cur)
				}
				steps++
				var got QAnswer
				bad := ""
				msg := guard(20*time.Second, func() {
					got, bad = ask(app, built[k], t, places, &cur)
					if bad == "" && rng.Intn(20) == 0 {
						again, _ := ask(app, built[k], t, places, &cur)
						if jsonStr(again) != jsonStr(got) {
							bad = "the same query on the same tree answers something else: " + jsonStr(again) + " after " + jsonStr(got)
						}
					}
				})
				if strings.HasPrefix(msg, "hang") {
					hung()
				}
				if msg != "" || bad != "" {
					report("Q01", fmt.Sprintf("query %s: %s%s", jsonStr(qc.Qs[k]), msg, bad), qc.Qs[k])
					continue
				}
				if x, y := jsonStr(run.R[k]), jsonStr(got); x != y {
					report("Q01", fmt.Sprintf("query %s on %s: expected %s, got %s", jsonStr(qc.Qs[k]), before, x, y), qc.Qs[k])
				}
			}
			for k, name := range qc.Names {
				for i := range run.Fetch[k] {
					var got QPlace
					bad := ""
					msg := guard(20*time.Second, func() { got, bad = fetchPlace(t, c.elName(name), i) })
					if msg != "" || bad != "" {
						report("Q01", fmt.Sprintf("fetching %s, %d of %s: %s%s", name, i, before, msg, bad), name)
						continue
					}
					if x, y := jsonStr(run.Fetch[k][i]), jsonStr(got); x != y {
						report("Q01", fmt.Sprintf("fetching %s, %d of %s: expected %s, got %s", name, i, before, x, y), name)
					}
				}
			}
			if bad := fetchElements(t); bad != "" {
				report("Q01", bad, nil)
			}
			if jsonStr(c.tree(t)) != before {
				report("Q01", "querying changed the tree "+before, nil)
			}
		}
		queriers.Put(app)
		parsers.Put(parser)
		mu.Lock()
		defer mu.Unlock()
		res.Cases += len(qc.Runs) * len(qc.Qs)
		res.Steps += steps
		for _, d := range diffs {
			res.add(d)
		}
	})
	res.Distinct = res.Cases
	res.finish(f["out"])
}

// randomQuery draws a query that fits a tree, more or less.
func (g *docGen) randomQuery(d QDoc, t PTree, depth int, above []string) QQuery {
	rng := g.rng
	q := QQuery{T: t.N, R: []string{"R", "R", "E", "T1"}[rng.Intn(4)], C: -1, F: []QFetch{}}
	if rng.Intn(25) == 0 {
		q.T = fmt.Sprintf("T%d", 1+rng.Intn(len(d.Tokens)))
	}
	pick := rng.Intn(len(t.E))
	// elements with trees lead deeper
	for k := 0; k < 3 && depth > 0; k++ {
		if len(t.E[pick].X) > 0 && t.E[pick].X[0].T != nil {
			break
		}
		pick = rng.Intn(len(t.E))
	}
	names := make([]string, len(t.E))
	for i, el := range t.E {
		names[i] = d.elementName(t, el, q.R)
	}
	q.E = names[pick]
	for i := 0; i < pick; i++ {
		if names[i] == q.E {
			q.I++
		}
	}
	if rng.Intn(12) == 0 {
		q.I += rng.Intn(3) - 1
		if q.I < 0 {
			q.I = 0
		}
	}
	if rng.Intn(15) == 0 {
		q.E = []string{"Z", "v1", "T1", "E"}[rng.Intn(4)]
	}
	if rng.Intn(3) == 0 {
		q.C = rng.Intn(len(t.E[pick].X) + 1)
	}
	q.Fn = []string{"all", "all", "all", "all", "all", "one", "one", "drop"}[rng.Intn(8)]
	if rng.Intn(40) == 0 {
		q.Fn = "qfail"
	}
	inner := []PTree{}
	for _, ct := range t.E[pick].X {
		if ct.T != nil {
			inner = append(inner, *ct.T)
		}
	}
	if depth == 0 || rng.Intn(5) == 0 || (len(inner) == 0 && rng.Intn(4) > 0) {
		q.In = []string{"each", "each", "each", "first", "first", "twice", "empty"}[rng.Intn(7)]
		if rng.Intn(30) == 0 {
			q.In = []string{"cfail", "sfail"}[rng.Intn(2)]
		}
		return q
	}
	q.In = "fetch"
	above = append(append([]string{}, above...), q.T)
	for k := 1 + rng.Intn(3); k > 0; k-- {
		if len(inner) == 0 || rng.Intn(4) == 0 {
			name := above[rng.Intn(len(above))]
			if len(inner) > 0 && rng.Intn(3) == 0 {
				name = inner[rng.Intn(len(inner))].N
			}
			q.F = append(q.F, QFetch{Q: []QQuery{}, N: name})
			continue
		}
		q.F = append(q.F, QFetch{Q: []QQuery{g.randomQuery(d, inner[rng.Intn(len(inner))], depth-1, above)}})
	}
	return q
}

// elementName is the name of an element, as its grammar gives it.
func (d QDoc) elementName(t PTree, el PElem, reverse string) string {
	if el.C == 0 {
		return reverse
	}
	tok := 0
	for i, one := range d.Tokens {
		if one.N == t.N {
			tok = i + 1
		}
	}
	if tok == 0 {
		for _, tk := range d.Tokens {
			for _, l := range tk.L {
				for _, c := range l {
					if c.K == "ext" && c.N == t.N {
						tok = d.Grammars[c.G-1].Root
					}
				}
			}
		}
	}
	if tok == 0 || t.L < 1 || t.L > len(d.Tokens[tok-1].L) || el.C < 1 || el.C > len(d.Tokens[tok-1].L[t.L-1]) {
		return "Z"
	}
	c := d.Tokens[tok-1].L[t.L-1][el.C-1]
	switch c.K {
	case "value":
		if d.VN == 1 {
			return "v"
		}
		return fmt.Sprintf("v%d", c.B)
	case "token":
		return d.Tokens[c.T-1].N
	}
	return c.N
}

func cmdQueryRandom(f map[string]string) {
	seed := int64(atoi(f["seed"], 1))
	runs := atoi(f["runs"], 100)
	res := &Result{}
	fh, err := os.Create(f["out"])
	if err != nil {
		fatal("%v", err)
	}
	defer fh.Close()
	counts := map[string]int{}
	records := 0
	var mu sync.Mutex
	parallel(runs, func(n int) {
		rng := newRand(seed, 700000+n)
		g := newDocGen(rng, f["features"])
		g.oneName = false
		d := QDoc{PDoc: g.doc(), VN: rng.Intn(2)}
		long := n%100 == 0
		if long {
			// one token with a long run of values and one of tokens
			one := PTok{N: "T1", L: [][]PCont{{{K: "value", B: 2, Lo: 1, Hi: 1, C: []PSpell{}}}}, S: []PSuite{}}
			all := PTok{N: "T2", L: [][]PCont{{{K: "value", B: 1, Lo: 1, Hi: -1, C: []PSpell{}}, {K: "token", T: 1, Lo: 0, Hi: -1, C: []PSpell{}}}}, S: []PSuite{}}
			d.PDoc = PDoc{Tokens: []PTok{one, all}, Grammars: []PGram{{Root: 2, Ch: []PChan{}}}}
		}
		c := newPConc(rng)
		c.names = d.VN
		b := c.build(d.PDoc)
		lines := [][]byte{}
		diffs := []Mismatch{}
		steps := 0
		mine := map[string]int{}
		for k := 0; k < 8 && !(long && k > 2); k++ {
			var t trees.Tree
			in := g.input(d.PDoc)
			if long {
				in = []int{}
				for j := 1; j <= 2; j++ {
					for i := 1 + rng.Intn(20) + []int{0, 250}[rng.Intn(2)]; i > 0; i-- {
						in = append(in, j)
					}
				}
			}
			parser := takeParser(rng)
			msg := guard(20*time.Second, func() {
				if !long {
					c.affordable(parser, b.grammars[1], &in)
				}
				got, err := parser.Execute(b.grammars[1], c.input(in))
				if err == nil && got != nil && got.Block().HasSuccessful() {
					t = got
				}
			})
			if msg != "" || t == nil {
				continue
			}
			parsers.Put(parser)
			rec := QRecord{Doc: d, Input: in, Tree: c.tree(t), Seed: seed, Case: n, Qs: []QQuery{}, R: []QAnswer{}, Fetch: []QAsked{}}
			report := func(what string) {
				diffs = append(diffs, Mismatch{Props: []string{"Q01"}, Case: n, What: what, Replay: rec})
			}
			places := map[trees.Content][]int{}
			placesOf(t, nil, places)
			before := jsonStr(rec.Tree)
			app := takeQuerier(rng)
			var cur *qrun
			for j := 0; j < 12; j++ {
				q := g.randomQuery(d, rec.Tree, rng.Intn(4), nil)
				var got QAnswer
				bad := ""
				msg := guard(20*time.Second, func() {
					got, bad = ask(app, c.query(q, &cur), t, places, &cur)
				})
				steps++
				if strings.HasPrefix(msg, "hang") {
					hung()
				}
				if msg != "" || bad != "" {
					report(fmt.Sprintf("query %s on %s: %s%s", jsonStr(q), before, msg, bad))
					continue
				}
				mine[got.St]++
				rec.Qs, rec.R = append(rec.Qs, q), append(rec.R, got)
			}
			for j := 0; j < 6; j++ {
				name := []string{"v", "v1", "v2", "C", "E", "X2"}[rng.Intn(6)]
				if rng.Intn(2) == 0 {
					name = d.Tokens[rng.Intn(len(d.Tokens))].N
				}
				a := QAsked{N: name, K: rng.Intn(3)}
				bad := ""
				msg := guard(20*time.Second, func() { a.R, bad = fetchPlace(t, c.elName(a.N), a.K) })
				if msg != "" || bad != "" {
					report(fmt.Sprintf("fetching %s, %d of %s: %s%s", a.N, a.K, before, msg, bad))
					continue
				}
				rec.Fetch = append(rec.Fetch, a)
			}
			if bad := fetchElements(t); bad != "" {
				report(bad)
			}
			if jsonStr(c.tree(t)) != before {
				report("querying changed the tree " + before)
			}
			queriers.Put(app)
			lines = append(lines, append([]byte(jsonStr(rec)), '\n'))
		}
		mu.Lock()
		defer mu.Unlock()
		res.Cases += len(lines)
		res.Steps += steps
		for k, v := range mine {
			counts[k] += v
		}
		for _, d := range diffs {
			res.add(d)
		}
		for _, line := range lines {
			records++
			fh.Write(line)
		}
	})
	res.Distinct = res.Cases
	res.Extra = map[string]interface{}{"answers": counts, "trees": records}
	res.finish(f["out"] + ".res")
}

func init() {
	commands["query-replay"] = cmdQueryReplay
	commands["query-random"] = cmdQueryRandom
}
