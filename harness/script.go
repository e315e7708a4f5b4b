package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	instances_components "github.com/steve-care-software/rodkina/instances/grammars/components"
	instances_grammars "github.com/steve-care-software/rodkina/instances/grammars/grammars"
	instances_tokens "github.com/steve-care-software/rodkina/instances/grammars/tokens"
	applications "github.com/steve-care-software/rodkina/libs/asts/applications"
	"github.com/steve-care-software/rodkina/libs/asts/domain/grammars"
	"github.com/steve-care-software/rodkina/libs/asts/domain/trees"
)

// SSuites are the suites of an instruction of Script.tla.
type SSuites struct {
	Valid   [][]int `json:"valid"`
	Invalid [][]int `json:"invalid"`
}

// SElement is an element of a line.
type SElement struct {
	Name  []int   `json:"name"`
	Cards [][]int `json:"cards"`
}

// SIns is an instruction.
type SIns struct {
	K string       `json:"k"`
	N []int        `json:"n"`
	T []int        `json:"t"`
	M [][]int      `json:"m"`
	X []int        `json:"x"`
	L [][]SElement `json:"l"`
	S SSuites      `json:"s"`
}

// SChannel is a channel.
type SChannel struct {
	N    []int `json:"n"`
	Prev []int `json:"prev"`
	Next []int `json:"next"`
}

// SRead is what a text declares.
type SRead struct {
	OK   bool       `json:"ok"`
	End  int        `json:"end"`
	Root []int      `json:"root"`
	Ch   []SChannel `json:"ch"`
	Ins  []SIns     `json:"ins"`
}

// STok is a token of Script.tla.
type STok struct {
	K string  `json:"k"`
	W []int   `json:"w"`
	C [][]int `json:"c"`
}

// SRun is a text with what is expected of it.
type SRun struct {
	I []int `json:"i"`
	R SRead `json:"r"`
	N int   `json:"n"`
}

// SCase is a token with inputs, or a bunch of scripts.
type SCase struct {
	Tok  *STok  `json:"tok"`
	Runs []SRun `json:"runs"`
}

// SRecord is a recorded reading, for ScriptTrace.tla.
type SRecord struct {
	I    []int `json:"i"`
	R    SRead `json:"r"`
	Case int   `json:"caseno"`
}

func toBytes(l []int) []byte {
	out := make([]byte, len(l))
	for i, b := range l {
		out[i] = byte(b)
	}
	return out
}

func toInts(b []byte) []int {
	out := make([]int, len(b))
	for i, x := range b {
		out[i] = int(x)
	}
	return out
}

// under lists the topmost trees with one of the names below a tree, in order.
func under(t trees.Tree, names ...string) []trees.Tree {
	out := []trees.Tree{}
	for _, el := range t.Block().Successful().Elements().List() {
		for _, ct := range el.Contents().List() {
			if !ct.IsTree() {
				continue
			}
			hit := false
			for _, n := range names {
				hit = hit || ct.Tree().Grammar().Name() == n
			}
			if hit {
				out = append(out, ct.Tree())
				continue
			}
			out = append(out, under(ct.Tree(), names...)...)
		}
	}
	return out
}

func textOf(t trees.Tree) []int { return toInts(t.Bytes(false)) }

func textsOf(l []trees.Tree) [][]int {
	out := [][]int{}
	for _, t := range l {
		out = append(out, textOf(t))
	}
	return out
}

// declared is what the tree of a script says.
func declared(t trees.Tree, length int) (out SRead, bad string) {
	defer func() {
		if r := recover(); r != nil {
			bad = fmt.Sprintf("the tree of the script does not have its parts: %v", r)
		}
	}()
	one := func(l []trees.Tree) trees.Tree {
		if len(l) != 1 {
			panic(fmt.Sprintf("%d parts instead of one", len(l)))
		}
		return l[0]
	}
	out = SRead{OK: true, End: length - len(t.Remaining()) + 1, Ch: []SChannel{}, Ins: []SIns{}}
	out.Root = textOf(one(under(one(under(t, "root")), "variableName")))
	for _, c := range under(t, "channel") {
		ch := SChannel{Prev: []int{}, Next: []int{}}
		ch.N = textOf(under(c, "variableName", "channelPreviousNext")[0])
		for _, x := range under(c, "channelPreviousNext") {
			s := string(x.Bytes(false))
			parts := strings.Split(strings.Trim(s, "[]"), ":")
			ch.Prev = toInts([]byte(parts[0]))
			if len(parts) > 1 {
				ch.Next = toInts([]byte(parts[1]))
			}
		}
		out.Ch = append(out.Ch, ch)
	}
	kinds := map[string]string{"valueAssignment": "value", "composeAssignment": "compose", "everythingAssignment": "everything",
		"tokenAssignment": "token", "externalTokenAssignment": "external"}
	for _, i := range under(t, "instruction") {
		a := one(under(i, "valueAssignment", "composeAssignment", "everythingAssignment", "tokenAssignment", "externalTokenAssignment"))
		ins := SIns{K: kinds[a.Grammar().Name()], T: []int{}, M: [][]int{}, X: []int{}, L: [][]SElement{}, S: SSuites{Valid: [][]int{}, Invalid: [][]int{}}}
		ins.N = textOf(under(a, "variableName", "compose", "everything", "block", "suite", "sha512Hex")[0])
		switch ins.K {
		case "value":
			for _, d := range under(a, "anyNumber") {
				ins.T = append(ins.T, textOf(d)...)
			}
		case "compose":
			parts := strings.Split(string(one(under(a, "compose")).Bytes(false)), "|")
			ins.T = toInts([]byte(parts[0]))
			for _, x := range parts[1:] {
				ins.M = append(ins.M, toInts([]byte(x)))
			}
		case "everything":
			parts := strings.Split(strings.TrimPrefix(string(one(under(a, "everything")).Bytes(false)), "#"), "!")
			ins.T = toInts([]byte(parts[0]))
			if len(parts) > 1 {
				ins.X = toInts([]byte(parts[1]))
			}
		case "token":
			for _, l := range under(one(under(a, "block")), "line") {
				line := []SElement{}
				for _, e := range under(l, "element") {
					line = append(line, SElement{Name: textOf(under(e, "variableName")[0]), Cards: textsOf(under(e, "cardinality"))})
				}
				ins.L = append(ins.L, line)
			}
		case "external":
			ins.T = textOf(one(under(a, "sha512Hex")))
		}
		for _, s := range under(a, "suite") {
			for _, v := range under(s, "suiteValid") {
				ins.S.Valid = append(ins.S.Valid, textsOf(under(v, "variableName"))...)
			}
			for _, v := range under(s, "suiteInvalid") {
				ins.S.Invalid = append(ins.S.Invalid, textsOf(under(v, "variableName"))...)
			}
		}
		out.Ins = append(out.Ins, ins)
	}
	return out, ""
}

var nothingRead = SRead{Root: []int{}, Ch: []SChannel{}, Ins: []SIns{}}

var shippedMu sync.Mutex
var shippedPool []grammars.Grammar

// shipped is the grammar of the grammar language: a new one or one that was used before.
func shipped(rng *rand.Rand) grammars.Grammar {
	shippedMu.Lock()
	defer shippedMu.Unlock()
	if len(shippedPool) < 4 || rng.Intn(500) == 0 {
		g := instances_grammars.NewGrammar().Grammar()
		if len(shippedPool) < 4 {
			shippedPool = append(shippedPool, g)
		} else {
			shippedPool[rng.Intn(len(shippedPool))] = g
		}
	}
	return shippedPool[rng.Intn(len(shippedPool))]
}

func readScript(app applications.Application, g grammars.Grammar, in []byte) (SRead, string) {
	given := append([]byte{}, in...)
	t, err := app.Execute(g, given)
	if !bytes.Equal(given, in) {
		return nothingRead, "the text was changed"
	}
	if err != nil || t == nil || !t.Block().HasSuccessful() {
		return nothingRead, ""
	}
	r, bad := declared(t, len(in))
	if bad != "" {
		return r, bad
	}
	if !bytes.Equal(t.Bytes(true), in[:r.End-1]) || !bytes.Equal(t.Remaining(), in[r.End-1:]) {
		return r, fmt.Sprintf("the tree has the bytes %q, what remains is %q", t.Bytes(true), t.Remaining())
	}
	return r, ""
}

// token builds a token of Script.tla.
func (t STok) token() grammars.Token {
	c := instances_components.NewComponent()
	k := instances_tokens.NewToken()
	switch t.K {
	case "all":
		return c.Token().AllCharacters("word", string(toBytes(t.W)))
	case "any":
		s := ""
		for _, one := range t.C {
			s += string(toBytes(one))
		}
		return c.Token().AnyCharacter("one of", s)
	case "variableName":
		return k.VariableName()
	case "sha512Hex":
		return k.Sha512Hex()
	case "anyHexChar":
		return k.AnyHexCharacter()
	case "anyLetter":
		return k.AnyLetter()
	case "anyByte":
		return k.AnyByte()
	case "anyNumber":
		return k.AnyNumber()
	case "aToFUpper":
		return k.AToFUpperCaseLetters()
	case "aToFLower":
		return k.AToFLowerCaseLetters()
	case "upper":
		return k.UpperCaseLetters()
	case "lower":
		return k.LowerCaseLetters()
	}
	fatal("unknown token %q", t.K)
	return nil
}

// composed returns the bytes a compose spells, by the application's own Compose.
func composed(app applications.Application, c grammars.Compose) ([]byte, error) {
	container, err := grammars.NewContainerBuilder().Create().WithCompose(c).Now()
	if err != nil {
		return nil, err
	}
	line, err := grammars.NewLineBuilder().Create().WithContainers([]grammars.Container{container}).Now()
	if err != nil {
		return nil, err
	}
	block, err := grammars.NewBlockBuilder().Create().WithLines([]grammars.Line{line}).Now()
	if err != nil {
		return nil, err
	}
	token, err := grammars.NewTokenBuilder().Create().WithName("composed").WithBlock(block).Now()
	if err != nil {
		return nil, err
	}
	return app.Compose(token)
}

// suitesHold checks that the suites of a grammar give what they announce, and nothing is covered twice.
func suitesHold(app applications.Application, g grammars.Grammar, what string) []string {
	out := []string{}
	covs, err := app.Coverages(g)
	if err != nil {
		return []string{fmt.Sprintf("the coverage of %s fails: %v", what, err)}
	}
	n := 0
	for _, cov := range covs.List() {
		for _, ex := range cov.Executions().List() {
			n++
			text, err := composed(app, ex.Expectation().Content())
			if err != nil {
				out = append(out, fmt.Sprintf("a suite of token %s of %s cannot be composed: %v", cov.Token().Name(), what, err))
				continue
			}
			if ex.Expectation().IsValid() != ex.Result().IsTree() {
				out = append(out, fmt.Sprintf("suite %q of token %s of %s: announced valid=%v, tree=%v", text, cov.Token().Name(), what, ex.Expectation().IsValid(), ex.Result().IsTree()))
			}
		}
	}
	if n == 0 {
		out = append(out, what+" has no suites")
	}
	return out
}

func rootedIn(t grammars.Token) grammars.Grammar {
	g, err := grammars.NewBuilder().Create().WithRoot(t).Now()
	must(err)
	return g
}

// composed checks the composes and suites made from texts.
func composedTexts(app applications.Application, rng *rand.Rand) []string {
	out := []string{}
	comp := instances_components.NewComponent()
	for k := 0; k < 60; k++ {
		text := make([]byte, 1+rng.Intn(12))
		rng.Read(text)
		if k%3 == 0 {
			text = []byte([]string{"é", "a", "\x00", "// x\n", "→b", "\xff\xfe"}[k/3%6])
		}
		if k%10 == 7 {
			// runs of one byte, and other texts, of lengths around those that fit in a byte
			length := []int{31, 64, 127, 128, 129, 254, 255, 256, 257, 300, 511, 513, 1000, 4097}[rng.Intn(14)]
			text = bytes.Repeat([]byte{byte(rng.Intn(256))}, length)
			if rng.Intn(3) == 0 {
				for j := rng.Intn(4); j > 0; j-- {
					text[rng.Intn(len(text))] ^= byte(1 + rng.Intn(255))
				}
			}
			if rng.Intn(6) == 0 {
				rng.Read(text)
			}
		}
		got, err := composed(app, comp.Compose().Compose(append([]byte{}, text...)))
		if err != nil || !bytes.Equal(got, text) {
			out = append(out, fmt.Sprintf("the compose of %q gives %q, %v", text, got, err))
		}
		m := map[string]bool{}
		amount := rng.Intn(5)
		if rng.Intn(40) == 0 {
			amount = []int{63, 127, 254, 255, 256, 257, 299, 1000}[rng.Intn(8)]
		}
		for j := amount; j >= 0; j-- {
			b := make([]byte, 1+rng.Intn(4))
			rng.Read(b)
			if rng.Intn(12) == 0 {
				b = bytes.Repeat(b[:1], 100+rng.Intn(400))
			}
			m[string(b)] = rng.Intn(2) == 0
		}
		want, have := []string{}, []string{}
		for s, v := range m {
			want = append(want, fmt.Sprintf("%q %v", s, v))
		}
		for _, s := range comp.Suite().Suites(m).List() {
			b, err := composed(app, s.Content())
			if err != nil {
				out = append(out, fmt.Sprintf("suites of %v: %v", m, err))
			}
			have = append(have, fmt.Sprintf("%q %v", b, s.IsValid()))
		}
		sort.Strings(want)
		sort.Strings(have)
		if jsonStr(want) != jsonStr(have) {
			out = append(out, fmt.Sprintf("the suites of %v are %v", want, have))
		}
	}
	return out
}

func cmdScriptReplay(f map[string]string) {
	seed := int64(atoi(f["seed"], 1))
	res := &Result{}
	var mu sync.Mutex
	runPool(f["in"], func(n int, line []byte) {
		var sc SCase
		if err := json.Unmarshal(line, &sc); err != nil {
			fatal("case %d: %v", n, err)
		}
		rng := newRand(seed, n)
		diffs := []Mismatch{}
		app := takeParser(rng)
		report := func(prop, what string, replay interface{}) {
			diffs = append(diffs, Mismatch{Props: []string{prop}, Case: n, What: what, Replay: map[string]interface{}{"input": replay, "token": sc.Tok, "seed": seed, "case": n}})
		}
		var tok grammars.Token
		if sc.Tok != nil {
			if msg := guard(20*time.Second, func() { tok = sc.Tok.token() }); msg != "" {
				report("G02", fmt.Sprintf("token %s is not built: %s", jsonStr(sc.Tok), msg), nil)
				sc.Runs = nil
			}
		}
		for r := range sc.Runs {
			run := sc.Runs[r]
			in := toBytes(run.I)
			if sc.Tok == nil {
				var got SRead
				bad := ""
				msg := guard(60*time.Second, func() { got, bad = readScript(app, shipped(rng), in) })
				if strings.HasPrefix(msg, "hang") {
					hung()
				}
				if msg != "" || bad != "" {
					report("G01", fmt.Sprintf("script %q: %s%s", in, msg, bad), string(in))
					continue
				}
				if x, y := jsonStr(run.R), jsonStr(got); x != y {
					report("G01", fmt.Sprintf("script %q: expected %s, got %s", in, x, y), string(in))
				}
				continue
			}
			took, bad := -1, ""
			msg := guard(20*time.Second, func() {
				t, err := app.Execute(rootedIn(tok), in)
				if err != nil || t == nil || !t.Block().HasSuccessful() {
					return
				}
				took = len(in) - len(t.Remaining())
				if !bytes.Equal(t.Bytes(true), in[:took]) || !bytes.Equal(t.Bytes(false), in[:took]) {
					bad = fmt.Sprintf("the tree has the bytes %q", t.Bytes(true))
				}
			})
			if msg != "" || bad != "" {
				report("G02", fmt.Sprintf("token %s on %q: %s%s", jsonStr(sc.Tok), in, msg, bad), string(in))
				continue
			}
			if took != run.N {
				report("G02", fmt.Sprintf("token %s on %q: expected it to take %d bytes, it takes %d", jsonStr(sc.Tok), in, run.N, took), string(in))
			}
		}
		if sc.Tok != nil && tok != nil {
			if msg := guard(60*time.Second, func() {
				for _, bad := range suitesHold(app, rootedIn(tok), "token "+jsonStr(sc.Tok)) {
					report("G02", bad, nil)
				}
				for _, bad := range composedTexts(app, rng) {
					report("G02", bad, nil)
				}
			}); msg != "" {
				report("G02", msg, nil)
			}
			if n == 0 {
				if msg := guard(200*time.Second, func() {
					for _, bad := range suitesHold(app, instances_grammars.NewGrammar().Grammar(), "the grammar") {
						report("G02", bad, nil)
					}
				}); msg != "" {
					report("G02", msg, nil)
				}
			}
		}
		parsers.Put(app)
		mu.Lock()
		defer mu.Unlock()
		res.Cases += len(sc.Runs)
		res.Steps += len(sc.Runs)
		for _, d := range diffs {
			res.add(d)
		}
	})
	res.Distinct = res.Cases
	res.finish(f["out"])
}

// randomScript draws the text of a script, well-formed or nearly.
func randomScript(rng *rand.Rand) []byte {
	letters := "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
	name := func() string {
		s := string(letters[rng.Intn(26)])
		for k := rng.Intn(8) * rng.Intn(2); k > 0; k-- {
			s += string(letters[rng.Intn(52)])
		}
		return []string{s, s, s, "valid", "invalid"}[rng.Intn(5)]
	}
	digits := func() string { return fmt.Sprintf("%d", rng.Intn([]int{10, 300, 100000}[rng.Intn(3)])) }
	names := func() string {
		l := []string{}
		for k := rng.Intn(3); k >= 0; k-- {
			l = append(l, name())
		}
		return strings.Join(l, "&")
	}
	suites := func() string {
		v, x := "valid:"+names()+";", "invalid:"+names()+";"
		if rng.Intn(8) == 0 {
			return []string{"---" + x + v, "---" + v + v, "---" + x + x, v, x, "---", "---" + v + x + v, ""}[rng.Intn(8)]
		}
		return "---" + []string{v, x, v + x}[rng.Intn(3)]
	}
	card := func() string {
		switch rng.Intn(8) {
		case 0, 1, 2:
			return []string{"?", "+", "*"}[rng.Intn(3)]
		case 3:
			return "[" + digits() + "]"
		case 4:
			return "[" + digits() + ",]"
		case 5:
			return "[" + digits() + "," + digits() + "]"
		}
		return ""
	}
	ins := func() string {
		n := name() + ":"
		switch rng.Intn(5) {
		case 0:
			return n + digits() + ";"
		case 1:
			n += name()
			for k := rng.Intn(3); k > 0; k-- {
				n += "|" + digits()
			}
		case 2:
			n += "#" + name()
			if rng.Intn(2) == 0 {
				n += "!" + name()
			}
		case 3:
			for k := rng.Intn(3); k >= 0; k-- {
				for j := rng.Intn(3); j >= 0; j-- {
					n += name() + card()
				}
				if k > 0 {
					n += "|"
				}
			}
		case 4:
			for k := 0; k < 128; k++ {
				n += string("0123456789abcdefABCDEF"[rng.Intn(22)])
			}
		}
		return n + suites() + ";"
	}
	out := "@" + name() + ";"
	for k := rng.Intn(3); k > 0; k-- {
		out += "-" + name() + []string{"", "[" + name() + "]", "[:" + name() + "]", "[" + name() + ":" + name() + "]"}[rng.Intn(4)] + ";"
	}
	for k := rng.Intn(4); k >= 0; k-- {
		out += ins()
	}
	text := []byte(out)
	if rng.Intn(2) == 0 {
		for k := rng.Intn(4); k > 0 && len(text) > 2; k-- {
			p := rng.Intn(len(text))
			c := "abZ019:;|&-[],#!@*?+/ \n"[rng.Intn(23)]
			switch rng.Intn(5) {
			case 0:
				text = append(text[:p:p], text[p+1:]...)
			case 1:
				text[p] = c
			case 2:
				text = append(text[:p:p], append([]byte{c}, text[p:]...)...)
			case 3:
				q := rng.Intn(len(text))
				text[p], text[q] = text[q], text[p]
			case 4:
				text[p] = byte(rng.Intn(256))
			}
		}
	}
	gaps := []string{" ", "\n", "\t", "\r\n", "  \t", "//c\n", "// a:1; @b\n\n", "//é\r", "// x //y\n//z\n", "/", "//\n"}
	laid := []byte{}
	density := []int{0, 3, 10, 40}[rng.Intn(4)]
	weird := rng.Intn(6) == 0
	for _, b := range text {
		if density > 0 && rng.Intn(density) == 0 {
			n := len(gaps) - 2
			if weird {
				n = len(gaps)
			}
			laid = append(laid, gaps[rng.Intn(n)]...)
		}
		laid = append(laid, b)
	}
	if rng.Intn(3) == 0 {
		laid = append(laid, gaps[rng.Intn(len(gaps))]...)
	}
	return laid
}

func cmdScriptRandom(f map[string]string) {
	seed := int64(atoi(f["seed"], 1))
	runs := atoi(f["runs"], 100)
	res := &Result{}
	fh, err := os.Create(f["out"])
	if err != nil {
		fatal("%v", err)
	}
	defer fh.Close()
	wellFormed := 0
	var mu sync.Mutex
	parallel(runs, func(n int) {
		rng := newRand(seed, 900000+n)
		in := randomScript(rng)
		app := takeParser(rng)
		rec := SRecord{I: toInts(in), Case: n}
		bad := ""
		msg := guard(60*time.Second, func() { rec.R, bad = readScript(app, shipped(rng), in) })
		if strings.HasPrefix(msg, "hang") {
			hung()
		}
		parsers.Put(app)
		mu.Lock()
		defer mu.Unlock()
		res.Cases++
		res.Steps++
		if msg != "" || bad != "" {
			res.add(Mismatch{Props: []string{"G01"}, Case: n, What: fmt.Sprintf("script %q: %s%s", in, msg, bad), Replay: string(in)})
			return
		}
		if rec.R.OK {
			wellFormed++
		}
		fh.Write(append([]byte(jsonStr(rec)), '\n'))
	})
	res.Distinct = res.Cases
	res.Extra = map[string]interface{}{"read": wellFormed}
	res.finish(f["out"] + ".res")
}

func init() {
	commands["script-replay"] = cmdScriptReplay
	commands["script-random"] = cmdScriptRandom
}
