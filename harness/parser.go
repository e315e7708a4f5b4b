package main

import (

	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"strings"
	"sync"
	"time"

	instances_components "github.com/steve-care-software/rodkina/instances/grammars/components"
	"github.com/steve-care-software/rodkina/libs/asts/applications"
	"github.com/steve-care-software/rodkina/libs/asts/domain/grammars"
	"github.com/steve-care-software/rodkina/libs/asts/domain/grammars/cardinalities"
	"github.com/steve-care-software/rodkina/libs/asts/domain/grammars/values"
	"github.com/steve-care-software/rodkina/libs/asts/domain/trees"
)

// PDoc is a document of Parser.tla.
type PDoc struct {
	Tokens   []PTok  `json:"tokens"`
	Grammars []PGram `json:"grammars"`
}

// PTok is a token.
type PTok struct {
	N string    `json:"n"`
	L [][]PCont `json:"l"`
	S []PSuite  `json:"s"`
}

// PSuite is a suite: what it feeds, and whether it is meant to match.
type PSuite struct {
	V bool     `json:"v"`
	C []PSpell `json:"c"`
}

// PSpell is a byte, a number of times.
type PSpell struct {
	B int `json:"b"`
	O int `json:"o"`
}

// PCont is a container.
type PCont struct {
	K  string   `json:"k"`
	B  int      `json:"b"`
	T  int      `json:"t"`
	X  int      `json:"x"`
	G  int      `json:"g"`
	N  string   `json:"n"`
	Lo int      `json:"lo"`
	Hi int      `json:"hi"`
	C  []PSpell `json:"c"`
}

// PGram is a grammar.
type PGram struct {
	Root int     `json:"root"`
	Ch   []PChan `json:"ch"`
}

// PChan is a channel.
type PChan struct {
	T int `json:"t"`
	P int `json:"p"`
	X int `json:"x"`
}

// PTree is a parse tree.
type PTree struct {
	N string  `json:"n"`
	L int     `json:"l"`
	E []PElem `json:"e"`
	S []PTree `json:"s"`
}

// PElem is an element of a tree.
type PElem struct {
	C int        `json:"c"`
	X []PContent `json:"x"`
}

// PContent is a byte with its prefix, or a tree.
type PContent struct {
	V *int
	P []PTree
	T *PTree
}

// MarshalJSON writes only the fields of the kind.
func (c PContent) MarshalJSON() ([]byte, error) {
	if c.T != nil {
		return json.Marshal(map[string]interface{}{"t": c.T})
	}
	p := c.P
	if p == nil {
		p = []PTree{}
	}
	return json.Marshal(map[string]interface{}{"v": c.V, "p": p})
}

// UnmarshalJSON reads either kind.
func (c *PContent) UnmarshalJSON(b []byte) error {
	var m struct {
		V *int    `json:"v"`
		P []PTree `json:"p"`
		T *PTree  `json:"t"`
	}
	if err := json.Unmarshal(b, &m); err != nil {
		return err
	}
	c.V, c.P, c.T = m.V, m.P, m.T
	return nil
}

// PRun is an input with what it gives.
type PRun struct {
	I    []int  `json:"i"`
	OK   bool   `json:"ok"`
	End  int    `json:"end"`
	Tree *PTree `json:"tree,omitempty"`
	Full []int  `json:"full"`
	Bare []int  `json:"bare"`
}

// PCase is a document with its inputs.
type PCase struct {
	Doc  PDoc   `json:"doc"`
	Runs []PRun `json:"runs"`
	Seed int64  `json:"seed,omitempty"`
	Case int    `json:"caseno,omitempty"`
}

// pconc draws what the specification leaves open: the bytes and the names.
type pconc struct {
	bytes   []byte // by abstract byte
	back    map[byte]int
	prefix  string
	names   int // how values are named
	sharing bool
	// escaping: the document has escapes
	escaping bool
	// comp makes what it can with the components of instances/grammars, not with the builders
	comp instances_components.Component
	pick *rand.Rand
}

func newPConc(rng *rand.Rand) *pconc {
	c := &pconc{back: map[byte]int{}, prefix: []string{"", "", "token-", "é ", "1"}[rng.Intn(5)], names: rng.Intn(3), sharing: rng.Intn(2) == 0}
	perm := rng.Perm(256)
	if rng.Intn(3) == 0 {
		// neighbours and extremes
		perm = append([]int{0, 255, 1, 254, 128, 127, 10, 13}, perm...)
	}
	seen := map[int]bool{}
	for _, one := range perm {
		if seen[one] {
			continue
		}
		seen[one] = true
		c.back[byte(one)] = len(c.bytes)
		c.bytes = append(c.bytes, byte(one))
		if len(c.bytes) > 12 {
			break
		}
	}
	return c
}

func (c *pconc) name(n string) string { return c.prefix + n }
func (c *pconc) unname(n string) string {
	if strings.HasPrefix(n, c.prefix) {
		return n[len(c.prefix):]
	}
	return "?" + n
}

func (c *pconc) unbyte(b byte) int {
	if v, ok := c.back[b]; ok {
		return v
	}
	return -1 - int(b)
}

func (c *pconc) unbytes(list []byte) []int {
	out := []int{}
	for _, b := range list {
		out = append(out, c.unbyte(b))
	}
	return out
}

func (c *pconc) input(list []int) []byte {
	out := make([]byte, 0, len(list)+7)
	for _, one := range list {
		out = append(out, c.bytes[one])
	}
	full := out[:cap(out)]
	for i := len(out); i < len(full); i++ {
		full[i] = 0xA5
	}
	return out
}

func (c *pconc) value(b int) values.Value {
	name := fmt.Sprintf("v%d", b)
	if c.names == 1 {
		name = "v"
	}
	if c.names == 2 {
		name = c.name("T1")
	}
	v, err := values.NewBuilder().Create().WithName(name).WithNumber(c.bytes[b]).Now()
	must(err)
	return v
}

func must(err error) {
	if err != nil {
		fatal("building a document: %v", err)
	}
}

func (c *pconc) compose(name string, list []PSpell) grammars.Compose {
	els := []grammars.ComposeElement{}
	for _, one := range list {
		el, err := grammars.NewComposeElementBuilder().Create().WithValue(c.value(one.B)).WithOccurences(uint(one.O)).Now()
		must(err)
		els = append(els, el)
	}
	out, err := grammars.NewComposeBuilder().Create().WithName(name).WithList(els).Now()
	must(err)
	return out
}

// built is a document built with the real builders.
type built struct {
	tokens   []grammars.Token
	grammars []grammars.Grammar
}

// build builds the grammars and tokens as they are needed; references only go to tokens of lower indices, or to
// grammars whose tokens do.
func (c *pconc) build(d PDoc) *built {
	out := &built{tokens: make([]grammars.Token, len(d.Tokens)+1), grammars: make([]grammars.Grammar, len(d.Grammars)+1)}
	shared := map[string]grammars.Container{}
	var token func(t int) grammars.Token
	var grammar func(g int) grammars.Grammar
	grammar = func(g int) grammars.Grammar {
		if out.grammars[g] != nil {
			return out.grammars[g]
		}
		b := grammars.NewBuilder().Create().WithRoot(token(d.Grammars[g-1].Root))
		chans := []grammars.Channel{}
		for _, one := range d.Grammars[g-1].Ch {
			cb := grammars.NewChannelBuilder().Create().WithToken(token(one.T))
			if one.P != 0 || one.X != 0 {
				qb := grammars.NewChannelConditionBuilder().Create()
				if one.P != 0 {
					qb.WithPrevious(token(one.P))
				}
				if one.X != 0 {
					qb.WithNext(token(one.X))
				}
				q, err := qb.Now()
				must(err)
				cb.WithCondition(q)
			}
			ch, err := cb.Now()
			must(err)
			chans = append(chans, ch)
		}
		if len(chans) > 0 {
			list, err := grammars.NewChannelsBuilder().Create().WithList(chans).Now()
			must(err)
			b.WithChannels(list)
		}
		gr, err := b.Now()
		must(err)
		out.grammars[g] = gr
		return gr
	}
	container := func(one PCont) grammars.Container {
		key := jsonStr(one)
		if c.sharing {
			if got, ok := shared[key]; ok {
				return got
			}
		}
		cb := grammars.NewContainerBuilder().Create()
		if one.K == "compose" {
			cb.WithCompose(c.compose(one.N, one.C))
		} else {
			card := cardinalities.NewBuilder().Create().WithMin(uint(one.Lo))
			if one.Hi >= 0 {
				card.WithMax(uint(one.Hi))
			}
			cd, err := card.Now()
			must(err)
			if c.comp != nil {
				if el := c.component(one, cd, token); el != nil {
					ct, err := cb.WithElement(el).Now()
					must(err)
					shared[key] = ct
					return ct
				}
			}
			eb := grammars.NewElementBuilder().Create().WithCardinality(cd)
			switch one.K {
			case "value":
				eb.WithValue(c.value(one.B))
			case "token":
				ins, err := grammars.NewInstanceBuilder().Create().WithToken(token(one.T)).Now()
				must(err)
				eb.WithInstance(ins)
			case "rec":
				eb.WithRecursive(c.name(one.N))
			case "every":
				vb := grammars.NewEverythingBuilder().Create().WithName(c.name(one.N)).WithException(token(one.T))
				if one.X != 0 {
					vb.WithEscape(token(one.X))
				}
				ev, err := vb.Now()
				must(err)
				ins, err := grammars.NewInstanceBuilder().Create().WithEverything(ev).Now()
				must(err)
				eb.WithInstance(ins)
			case "ext":
				ex, err := grammars.NewExternalBuilder().Create().WithName(c.name(one.N)).WithGrammar(grammar(one.G)).Now()
				must(err)
				eb.WithExternal(ex)
			default:
				fatal("unknown container %q", one.K)
			}
			el, err := eb.Now()
			must(err)
			cb.WithElement(el)
		}
		ct, err := cb.Now()
		must(err)
		shared[key] = ct
		return ct
	}
	token = func(t int) grammars.Token {
		if out.tokens[t] != nil {
			return out.tokens[t]
		}
		lines := []grammars.Line{}
		alone := []grammars.Element{}
		for _, l := range d.Tokens[t-1].L {
			cts := []grammars.Container{}
			plain := []grammars.Element{}
			for _, one := range l {
				ct := container(one)
				cts = append(cts, ct)
				if ct.IsElement() {
					plain = append(plain, ct.Element())
				}
			}
			if c.comp != nil && len(plain) == len(cts) {
				lines = append(lines, c.comp.Line().FromElements(plain))
				if len(plain) == 1 {
					alone = append(alone, plain[0])
				}
				continue
			}
			ln, err := grammars.NewLineBuilder().Create().WithContainers(cts).Now()
			must(err)
			lines = append(lines, ln)
		}
		if c.comp != nil && len(d.Tokens[t-1].S) == 0 {
			if len(alone) == len(lines) && c.pick.Intn(2) == 0 {
				out.tokens[t] = c.comp.Token().AnyElement(c.name(d.Tokens[t-1].N), alone, nil)
			} else {
				out.tokens[t] = c.comp.Token().FromBlock(c.name(d.Tokens[t-1].N), c.comp.Block().FromLines(lines), nil)
			}
			return out.tokens[t]
		}
		block, err := grammars.NewBlockBuilder().Create().WithLines(lines).Now()
		must(err)
		tb := grammars.NewTokenBuilder().Create().WithName(c.name(d.Tokens[t-1].N)).WithBlock(block)
		if len(d.Tokens[t-1].S) > 0 {
			list := []grammars.Suite{}
			for _, one := range d.Tokens[t-1].S {
				sb := grammars.NewSuiteBuilder().Create()
				if one.V {
					sb.WithValid(c.compose("suite", one.C))
				} else {
					sb.WithInvalid(c.compose("suite", one.C))
				}
				s, err := sb.Now()
				must(err)
				list = append(list, s)
			}
			suites, err := grammars.NewSuitesBuilder().Create().WithList(list).Now()
			must(err)
			tb.WithSuites(suites)
		}
		tk, err := tb.Now()
		must(err)
		out.tokens[t] = tk
		return tk
	}
	for t := 1; t <= len(d.Tokens); t++ {
		token(t)
	}
	for g := 1; g <= len(d.Grammars); g++ {
		grammar(g)
	}
	return out
}

// component makes an element with the components, if they can make it.
func (c *pconc) component(one PCont, cd cardinalities.Cardinality, token func(t int) grammars.Token) grammars.Element {
	once := one.Lo == 1 && one.Hi == 1
	switch {
	case one.K == "value" && once:
		return c.comp.Element().FromValue(c.bytes[one.B])
	case one.K == "token":
		if once && c.pick.Intn(2) == 0 {
			return c.comp.Element().FromToken(token(one.T), c.comp.Cardinality().Once())
		}
		if one.Hi < 0 {
			return c.comp.Element().FromToken(token(one.T), c.comp.Cardinality().Cardinality(uint(one.Lo), nil))
		}
		max := uint(one.Hi)
		out := c.comp.Element().FromToken(token(one.T), c.comp.Cardinality().Cardinality(uint(one.Lo), &max))
		max += 7
		return out
	case one.K == "every" && once:
		if one.X == 0 {
			return c.comp.Element().FromEverything(c.comp.Everything().WithoutEscape(c.name(one.N), token(one.T)))
		}
		return c.comp.Element().FromEverything(c.comp.Everything().Everything(c.name(one.N), token(one.T), token(one.X)))
	}
	return nil
}

// tree turns a real tree into one of the specification.
func (c *pconc) tree(t trees.Tree) PTree {
	out := PTree{N: c.unname(t.Grammar().Name()), E: []PElem{}, S: []PTree{}}
	line := t.Block().Successful()
	out.L = int(line.Index()) + 1
	// the line is the one of that index of the token the tree names
	if lines := t.Grammar().Block().Lines(); out.L > len(lines) || (lines[out.L-1] != line.Grammar() && !reflect.DeepEqual(lines[out.L-1], line.Grammar())) {
		out.L = -out.L
	}
	containers := line.Grammar().Containers()
	next := 0
	for _, one := range line.Elements().List() {
		el := PElem{C: 0, X: []PContent{}}
		if one.HasGrammar() {
			el.C = -1
			for i := next; i < len(containers); i++ {
				if containers[i] == one.Grammar() {
					el.C, next = i+1, i+1
					break
				}
			}
		}
		for _, ct := range one.Contents().List() {
			el.X = append(el.X, c.content(ct))
		}
		out.E = append(out.E, el)
	}
	if t.HasSuffix() {
		out.S = c.trees(t.Suffix())
	}
	return out
}

func (c *pconc) trees(list trees.Trees) []PTree {
	out := []PTree{}
	for _, one := range list.List() {
		out = append(out, c.tree(one))
	}
	return out
}

func (c *pconc) content(ct trees.Content) PContent {
	if ct.IsTree() {
		t := c.tree(ct.Tree())
		return PContent{T: &t}
	}
	v := c.unbyte(ct.Value().Content())
	out := PContent{V: &v, P: []PTree{}}
	if ct.Value().HasPrefix() {
		out.P = c.trees(ct.Value().Prefix())
	}
	return out
}

// parsers holds applications that parsed other documents before: they keep nothing from one parse to the next.
var parsers sync.Pool

func takeParser(rng *rand.Rand) applications.Application {
	if rng.Intn(8) > 0 {
		if app, ok := parsers.Get().(applications.Application); ok {
			return app
		}
	}
	return applications.NewApplication()
}

// execute parses an input and observes the result; the second result lists what breaks A02.
func (c *pconc) execute(app applications.Application, gr grammars.Grammar, in []int, escapes bool) (PRun, []string) {
	run := PRun{I: in}
	if run.I == nil {
		run.I = []int{}
	}
	bad := []string{}
	input := c.input(in)
	kept := append([]byte{}, input[:cap(input)]...)
	t, err := app.Execute(gr, input)
	if !bytes.Equal(kept, input[:cap(input)]) {
		bad = append(bad, "the parse changed the caller's bytes")
	}
	if err != nil || t == nil || !t.Block().HasSuccessful() {
		return run, bad
	}
	run.OK = true
	rest := []byte{}
	if t.HasRemaining() {
		rest = t.Remaining()
	}
	run.End = len(input) - len(rest) + 1
	tree := c.tree(t)
	run.Tree = &tree
	full, bare := t.Bytes(true), t.Bytes(false)
	run.Full, run.Bare = c.unbytes(full), c.unbytes(bare)
	if !bytes.HasSuffix(input, rest) {
		bad = append(bad, fmt.Sprintf("the remaining bytes %v are not the end of the input %v", rest, input))
	}
	if !escapes && !bytes.Equal(append(append([]byte{}, full...), rest...), input) {
		bad = append(bad, fmt.Sprintf("bytes of the tree %v and remaining %v, input %v", full, rest, input))
	}
	if w := walkValues(t); !bytes.Equal(w, bare) {
		bad = append(bad, fmt.Sprintf("bytes without channels %v, values of the tree %v", bare, w))
	}
	for _, one := range sumsOfParts(t) {
		bad = append(bad, one)
	}
	// the bytes handed out are copies
	for i := range full {
		full[i] ^= 0xff
	}
	for i := range bare {
		bare[i] ^= 0xff
	}
	if !bytes.Equal(kept, input[:cap(input)]) || jsonStr(c.tree(t)) != jsonStr(tree) {
		bad = append(bad, "the bytes of the tree are not its own")
	}
	return run, bad
}

// sumsOfParts compares the bytes of every part of a tree with those of its parts.
func sumsOfParts(t trees.Tree) []string {
	out := []string{}
	for _, all := range []bool{true, false} {
		sum := []byte{}
		for _, el := range t.Block().Successful().Elements().List() {
			parts := []byte{}
			for _, ct := range el.Contents().List() {
				want := ct.Bytes(all)
				if ct.IsValue() {
					want = []byte{ct.Value().Content()}
					if all && ct.Value().HasPrefix() {
						want = append(ct.Value().Prefix().Bytes(all), want...)
					}
				} else if all {
					out = append(out, sumsOfParts(ct.Tree())...)
				}
				if got := ct.Bytes(all); !bytes.Equal(got, want) {
					out = append(out, fmt.Sprintf("bytes of a content (channels %v): %v, of its parts %v", all, got, want))
				}
				parts = append(parts, ct.Bytes(all)...)
			}
			if got := el.Bytes(all); !bytes.Equal(got, parts) {
				out = append(out, fmt.Sprintf("bytes of an element (channels %v): %v, of its contents %v", all, got, parts))
			}
			sum = append(sum, parts...)
		}
		if all && t.HasSuffix() {
			for _, one := range t.Suffix().List() {
				sum = append(sum, one.Bytes(all)...)
				out = append(out, sumsOfParts(one)...)
			}
		}
		if got := t.Bytes(all); !bytes.Equal(got, sum) {
			out = append(out, fmt.Sprintf("bytes of a tree (channels %v): %v, of its parts %v", all, got, sum))
		}
	}
	return out
}

// walkValues lists the matched bytes of a tree in order, channel text left out.
func walkValues(t trees.Tree) []byte {
	out := []byte{}
	for _, el := range t.Block().Successful().Elements().List() {
		for _, ct := range el.Contents().List() {
			if ct.IsTree() {
				out = append(out, walkValues(ct.Tree())...)
			} else {
				out = append(out, ct.Value().Content())
			}
		}
	}
	return out
}

func (d PDoc) escapes() bool {
	for _, t := range d.Tokens {
		for _, l := range t.L {
			for _, c := range l {
				if c.K == "every" && c.X != 0 {
					return true
				}
			}
		}
	}
	return false
}

func sameRun(a, b PRun) string {
	if a.OK != b.OK {
		return fmt.Sprintf("matches: expected %v, got %v", a.OK, b.OK)
	}
	if !a.OK {
		return ""
	}
	if a.End != b.End {
		return fmt.Sprintf("consumed: expected %d bytes, got %d", a.End-1, b.End-1)
	}
	if x, y := jsonStr(a.Tree), jsonStr(b.Tree); x != y {
		return fmt.Sprintf("tree: expected %s, got %s", x, y)
	}
	return ""
}

// makers holds components that made other documents before.
var makers sync.Pool

// componentsProp names the property a document made with the components breaks: not prop if the builders' document breaks its own.
func componentsProp(doc PDoc, c pconc, want PRun, prop string) string {
	c.comp = nil
	got, _ := c.execute(applications.NewApplication(), c.build(doc).grammars[1], want.I, false)
	if sameRun(want, got) != "" {
		return "A01"
	}
	return prop
}

// cmdParseReplay runs the documents of MCParser.tla.
func cmdParseReplay(f map[string]string) {
	seed := int64(atoi(f["seed"], 1))
	prop := f["prop"]
	comp := f["components"] == "1"
	res := &Result{}
	var mu sync.Mutex
	runPool(f["in"], func(n int, line []byte) {
		var pc PCase
		if err := json.Unmarshal(line, &pc); err != nil {
			fatal("case %d: %v", n, err)
		}
		pc.Seed, pc.Case = seed, n
		rng := newRand(seed, n)
		c := newPConc(rng)
		c.pick = rng
		if comp {
			c.comp, _ = makers.Get().(instances_components.Component)
			if c.comp == nil || rng.Intn(8) == 0 {
				c.comp = instances_components.NewComponent()
			}
			defer makers.Put(c.comp)
		}
		b := c.build(pc.Doc)
		escapes := pc.Doc.escapes()
		order := rng.Perm(len(pc.Runs))
		diffs := []Mismatch{}
		report := func(p string, r int, format string, args ...interface{}) {
			one := PCase{Doc: pc.Doc, Runs: []PRun{pc.Runs[r]}, Seed: seed, Case: n}
			diffs = append(diffs, Mismatch{Props: []string{p}, Case: n, What: fmt.Sprintf("input %v: ", pc.Runs[r].I) + fmt.Sprintf(format, args...), Replay: one})
		}
		cur := -1
		msg := guard(60*time.Second, func() {
			app := takeParser(rng)
			for _, r := range order {
				cur = r
				got, bad := c.execute(app, b.grammars[1], pc.Runs[r].I, escapes)
				if comp {
					if d := sameRun(pc.Runs[r], got); d != "" {
						report(componentsProp(pc.Doc, *c, pc.Runs[r], prop), r, "made with the components: %s", d)
					}
					continue
				}
				for _, one := range bad {
					report("A02", r, "%s", one)
				}
				if d := sameRun(pc.Runs[r], got); d != "" {
					report(prop, r, "%s", d)
				}
				if pc.Runs[r].OK && got.OK {
					if !intsEq(pc.Runs[r].Full, got.Full) || !intsEq(pc.Runs[r].Bare, got.Bare) {
						if sameRun(pc.Runs[r], got) == "" {
							report("A02", r, "bytes of the tree: expected %v / %v, got %v / %v", pc.Runs[r].Full, pc.Runs[r].Bare, got.Full, got.Bare)
						}
					}
				}
			}
			parsers.Put(app)
		})
		mu.Lock()
		defer mu.Unlock()
		res.Cases++
		res.Steps += len(order)
		if msg != "" {
			hung()
			res.add(Mismatch{Props: []string{prop}, Case: n, What: msg, Replay: PCase{Doc: pc.Doc, Runs: []PRun{pc.Runs[cur]}, Seed: seed, Case: n}})
			return
		}
		for _, d := range diffs {
			res.add(d)
		}
	})
	res.Distinct = res.Cases
	res.finish(f["out"])
}

// -------------------------------------------------------------------------
// random documents

type docGen struct {
	rng    *rand.Rand
	feat   map[string]bool
	nbytes int
	// oneName: elements that embed different grammars have the same name
	oneName bool
}

func (g *docGen) card() (int, int) {
	switch g.rng.Intn(9) {
	case 0, 1, 2, 3:
		return 1, 1
	case 4:
		return 0, 1
	case 5:
		return 0, -1
	case 6:
		return 1, -1
	case 7:
		lo := g.rng.Intn(3)
		return lo, lo + g.rng.Intn(3)
	default:
		return g.rng.Intn(4), -1
	}
}

func (g *docGen) spell() []PSpell {
	out := []PSpell{}
	for k := 1 + g.rng.Intn(3); k > 0; k-- {
		out = append(out, PSpell{B: 1 + g.rng.Intn(g.nbytes), O: 1 + g.rng.Intn(3)})
	}
	return out
}

// container draws a container of token t; exts counts the grammars that may be embedded.
func (g *docGen) container(t, total int, grams []PGram) PCont {
	lo, hi := g.card()
	out := PCont{Lo: lo, Hi: hi, C: []PSpell{}}
	for {
		switch g.rng.Intn(12) {
		case 0, 1, 2, 3, 4:
			out.K, out.B = "value", 1+g.rng.Intn(g.nbytes)
			return out
		case 5, 6, 7:
			if t > 1 {
				out.K, out.T = "token", 1+g.rng.Intn(t-1)
				return out
			}
		case 8:
			out.K, out.N = "rec", fmt.Sprintf("T%d", 1+g.rng.Intn(total+1))
			return out
		case 9:
			if g.feat["compose"] && g.rng.Intn(2) == 0 {
				return PCont{K: "compose", N: "C", C: g.spell()}
			}
		case 10:
			if g.feat["every"] && t > 1 {
				out.K, out.T, out.N = "every", 1+g.rng.Intn(t-1), "E"
				if g.feat["escape"] && g.rng.Intn(2) == 0 {
					out.X = 1 + g.rng.Intn(t-1)
				}
				return out
			}
		case 11:
			if g.feat["ext"] && len(grams) > 1 && g.rng.Intn(2) == 0 {
				out.K, out.G = "ext", 2+g.rng.Intn(len(grams)-1)
				out.N = fmt.Sprintf("X%d", out.G)
				if g.oneName {
					out.N = "X"
				}
				return out
			}
		}
	}
}

func (g *docGen) channels(t int) []PChan {
	out := []PChan{}
	if !g.feat["channels"] || t < 1 {
		return out
	}
	for k := g.rng.Intn(3); k > 0; k-- {
		ch := PChan{T: 1 + g.rng.Intn(t)}
		if g.rng.Intn(3) == 0 {
			ch.P = 1 + g.rng.Intn(t)
		}
		if g.rng.Intn(3) == 0 {
			ch.X = 1 + g.rng.Intn(t)
		}
		out = append(out, ch)
	}
	return out
}

// doc draws a document; grammar 1 has the last token as its root.
func (g *docGen) doc() PDoc {
	total := 1 + g.rng.Intn(6)
	d := PDoc{Grammars: []PGram{{}}}
	// with channels, the first tokens are usually blanks of their own
	blanks := 0
	if g.feat["channels"] {
		blanks = 1 + g.rng.Intn(2)
		total += blanks
	}
	for t := 1; t <= total; t++ {
		if t <= blanks && g.rng.Intn(4) > 0 {
			d.Tokens = append(d.Tokens, PTok{N: fmt.Sprintf("T%d", t), L: [][]PCont{{{K: "value", B: g.nbytes + t, Lo: 1, Hi: 1 - 2*g.rng.Intn(2), C: []PSpell{}}}}, S: []PSuite{}})
			continue
		}
		tok := PTok{N: fmt.Sprintf("T%d", t), L: [][]PCont{}, S: []PSuite{}}
		for l := 1 + g.rng.Intn(3); l > 0; l-- {
			line := []PCont{}
			for k := 1 + g.rng.Intn(4); k > 0; k-- {
				line = append(line, g.container(t, total, d.Grammars))
			}
			tok.L = append(tok.L, line)
		}
		d.Tokens = append(d.Tokens, tok)
		if g.feat["ext"] && t < total && g.rng.Intn(2) == 0 {
			d.Grammars = append(d.Grammars, PGram{Root: 1 + g.rng.Intn(t), Ch: g.channels(t)})
		}
	}
	d.Grammars[0] = PGram{Root: total, Ch: g.channels(total)}
	if blanks > 0 && len(d.Grammars[0].Ch) == 0 {
		d.Grammars[0].Ch = []PChan{{T: 1}}
	}
	return d
}

// yield draws a text the token could match, so that inputs go deep.
func (g *docGen) yield(d PDoc, t int, ch []PChan, depth int, out *[]int) {
	if depth > 6 || len(*out) > 24 {
		return
	}
	line := d.Tokens[t-1].L[g.rng.Intn(len(d.Tokens[t-1].L))]
	if depth > 3 {
		line = d.Tokens[t-1].L[len(d.Tokens[t-1].L)-1]
	}
	blank := func() {
		if len(ch) > 0 && g.rng.Intn(3) == 0 {
			g.yield(d, ch[g.rng.Intn(len(ch))].T, nil, depth+2, out)
		}
	}
	for _, c := range line {
		if c.K == "compose" {
			for _, s := range c.C {
				for i := 0; i < s.O; i++ {
					blank()
					*out = append(*out, s.B)
				}
			}
			continue
		}
		n := c.Lo
		if c.Hi < 0 {
			n += g.rng.Intn(3)
		} else if c.Hi > c.Lo {
			n += g.rng.Intn(c.Hi - c.Lo + 1)
		}
		for i := 0; i < n; i++ {
			blank()
			switch c.K {
			case "value":
				*out = append(*out, c.B)
			case "token":
				g.yield(d, c.T, ch, depth+1, out)
			case "rec":
				for j := range d.Tokens {
					if d.Tokens[j].N == c.N {
						g.yield(d, j+1, ch, depth+1, out)
					}
				}
			case "ext":
				g.yield(d, d.Grammars[c.G-1].Root, d.Grammars[c.G-1].Ch, depth+1, out)
			case "every":
				for k := 1 + g.rng.Intn(3); k > 0; k-- {
					if c.X != 0 && g.rng.Intn(3) == 0 {
						g.yield(d, c.X, nil, depth+2, out)
						g.yield(d, c.T, nil, depth+2, out)
						continue
					}
					*out = append(*out, 1+g.rng.Intn(g.nbytes))
				}
			}
		}
	}
	blank()
}

func (g *docGen) input(d PDoc) []int {
	out := []int{}
	if g.rng.Intn(5) > 0 {
		g.yield(d, d.Grammars[0].Root, d.Grammars[0].Ch, 0, &out)
	}
	top := g.nbytes + 2
	for k := g.rng.Intn(3); k > 0; k-- {
		switch g.rng.Intn(4) {
		case 0:
			out = append(out, 1+g.rng.Intn(top))
		case 1:
			if len(out) > 0 {
				i := g.rng.Intn(len(out))
				out = append(out[:i], out[i+1:]...)
			}
		case 2:
			i := g.rng.Intn(len(out) + 1)
			out = append(out[:i], append([]int{1 + g.rng.Intn(top)}, out[i:]...)...)
		case 3:
			if len(out) > 0 {
				out[g.rng.Intn(len(out))] = 1 + g.rng.Intn(top)
			}
		}
	}
	if len(out) > 24 {
		out = out[:24]
	}
	return out
}

func newDocGen(rng *rand.Rand, features string) *docGen {
	g := &docGen{rng: rng, feat: map[string]bool{}, nbytes: 1 + rng.Intn(3)}
	g.oneName = rng.Intn(3) == 0
	for _, one := range strings.Split(features, "+") {
		g.feat[one] = true
	}
	return g
}

// affordable shortens an input until parsing it stays cheap: ambiguous grammars can take exponential time, in the code and
// in the specification.
func (c *pconc) affordable(app applications.Application, gr grammars.Grammar, in *[]int) bool {
	for k := 3; k < len(*in); k += 2 {
		t0 := time.Now()
		app.Execute(gr, c.input((*in)[:k]))
		if time.Since(t0) > time.Millisecond {
			*in = (*in)[:k]
			return true
		}
	}
	return false
}

// cmdParseRandom parses random documents and records what happened, for ParserTrace.tla.
func cmdParseRandom(f map[string]string) {
	seed := int64(atoi(f["seed"], 1))
	runs := atoi(f["runs"], 100)
	prop := f["prop"]
	res := &Result{}
	fh, err := os.Create(f["out"])
	if err != nil {
		fatal("%v", err)
	}
	defer fh.Close()
	slow, matched := 0, 0
	var mu sync.Mutex
	parallel(runs, func(n int) {
		rng := newRand(seed, 500000+n)
		g := newDocGen(rng, f["features"])
		pc := PCase{Doc: g.doc(), Seed: seed, Case: n}
		c := newPConc(rng)
		b := c.build(pc.Doc)
		var cur []int
		cut := false
		diffs := []string{}
		msg := guard(20*time.Second, func() {
			app := takeParser(rng)
			defer parsers.Put(app)
			for k := 0; k < 6; k++ {
				cur = g.input(pc.Doc)
				cut = c.affordable(app, b.grammars[1], &cur) || cut
				got, bad := c.execute(app, b.grammars[1], cur, pc.Doc.escapes())
				pc.Runs = append(pc.Runs, got)
				diffs = append(diffs, bad...)
			}
		})
		mu.Lock()
		defer mu.Unlock()
		res.Cases++
		res.Steps += len(pc.Runs)
		if cut {
			slow++
		}
		if msg != "" {
			hung()
			res.add(Mismatch{Props: []string{prop}, Case: n, What: msg, Replay: map[string]interface{}{"doc": pc.Doc, "input": cur, "seed": seed, "case": n}})
			return
		}
		for _, d := range diffs {
			res.add(Mismatch{Props: []string{"A02"}, Case: n, What: d, Replay: pc})
		}
		for i := range pc.Runs {
			if pc.Runs[i].OK {
				matched++
			} else {
				pc.Runs[i].Full, pc.Runs[i].Bare = []int{}, []int{}
			}
		}
		line, err := json.Marshal(pc)
		if err != nil {
			fatal("%v", err)
		}
		fh.Write(append(line, '\n'))
	})
	res.Distinct = res.Cases
	res.Extra = map[string]interface{}{"matched": matched, "inputs cut short": slow}
	res.finish(f["out"] + ".res")
}

func init() {
	commands["parse-replay"] = cmdParseReplay
	commands["parse-random"] = cmdParseRandom
}
