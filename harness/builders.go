package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"reflect"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/steve-care-software/rodkina/libs/asts/domain/grammars"
	"github.com/steve-care-software/rodkina/libs/asts/domain/grammars/cardinalities"
	"github.com/steve-care-software/rodkina/libs/asts/domain/grammars/coverages"
	"github.com/steve-care-software/rodkina/libs/asts/domain/grammars/values"
	"github.com/steve-care-software/rodkina/libs/asts/domain/trees"
	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hash"
	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hashtrees"
	"github.com/steve-care-software/rodkina/libs/databases/domain/contents"
	"github.com/steve-care-software/rodkina/libs/databases/domain/references"
	"github.com/steve-care-software/rodkina/libs/interpreters/domain/instructions"
	ins_applications "github.com/steve-care-software/rodkina/libs/interpreters/domain/instructions/applications"
	"github.com/steve-care-software/rodkina/libs/interpreters/domain/instructions/attachments"
	ins_modules "github.com/steve-care-software/rodkina/libs/interpreters/domain/instructions/modules"
	"github.com/steve-care-software/rodkina/libs/interpreters/domain/instructions/parameters"
	"github.com/steve-care-software/rodkina/libs/interpreters/domain/programs"
	"github.com/steve-care-software/rodkina/libs/interpreters/domain/programs/modules"
	"github.com/steve-care-software/rodkina/libs/queries/domain/queries"
)

// BuildField and BuildKind are the rows of the table of Builders.tla.
type BuildField struct {
	Set  string `json:"set"`
	Get  string `json:"get"`
	Has  string `json:"has"`
	Type string `json:"type"`
	Need string `json:"need"`
}

type BuildKind struct {
	Kind   string       `json:"kind"`
	Fields []BuildField `json:"fields"`
	Extra  []string     `json:"extra"`
}

// BuildOp is an operation on a builder; fields and builders are counted from 1.
type BuildOp struct {
	Op string `json:"op"`
	B  int    `json:"b"`
	F  int    `json:"f"`
	V  []int  `json:"v"`
}

// BuildRead is what a value answers; a builder that refuses answers nothing.
type BuildRead struct {
	Fields [][]int `json:"fields"`
	Has    []int   `json:"has"`
	Extra  [][]int `json:"extra"`
}

// BuildCase is a script with what was built in it.
type BuildCase struct {
	Table  []BuildKind `json:"table,omitempty"`
	Kind   string      `json:"kind"`
	Script []BuildOp   `json:"script"`
	Built  []BuildRead `json:"built"`
	Again  []BuildRead `json:"again,omitempty"`
	Seed   int64       `json:"seed,omitempty"`
	Case   int         `json:"caseno,omitempty"`
}

var builderOf = map[string]interface{}{
	"trees.Trees":               trees.NewBuilder,
	"trees.Tree":                trees.NewTreeBuilder,
	"trees.Block":               trees.NewBlockBuilder,
	"trees.Line":                trees.NewLineBuilder,
	"trees.Elements":            trees.NewElementsBuilder,
	"trees.Element":             trees.NewElementBuilder,
	"trees.Contents":            trees.NewContentsBuilder,
	"trees.Content":             trees.NewContentBuilder,
	"trees.Value":               trees.NewValueBuilder,
	"grammars.Grammar":          grammars.NewBuilder,
	"grammars.Channels":         grammars.NewChannelsBuilder,
	"grammars.Channel":          grammars.NewChannelBuilder,
	"grammars.ChannelCondition": grammars.NewChannelConditionBuilder,
	"grammars.External":         grammars.NewExternalBuilder,
	"grammars.Instance":         grammars.NewInstanceBuilder,
	"grammars.Everything":       grammars.NewEverythingBuilder,
	"grammars.Tokens":           grammars.NewTokensBuilder,
	"grammars.Token":            grammars.NewTokenBuilder,
	"grammars.Suites":           grammars.NewSuitesBuilder,
	"grammars.Suite":            grammars.NewSuiteBuilder,
	"grammars.Block":            grammars.NewBlockBuilder,
	"grammars.Line":             grammars.NewLineBuilder,
	"grammars.Container":        grammars.NewContainerBuilder,
	"grammars.Element":          grammars.NewElementBuilder,
	"grammars.Compose":          grammars.NewComposeBuilder,
	"grammars.ComposeElement":   grammars.NewComposeElementBuilder,
	"values.Value":              values.NewBuilder,
	"cardinalities.Cardinality": cardinalities.NewBuilder,
	"coverages.Coverages":       coverages.NewBuilder,
	"coverages.Coverage":        coverages.NewCoverageBuilder,
	"coverages.Executions":      coverages.NewExecutionsBuilder,
	"coverages.Execution":       coverages.NewExecutionBuilder,
	"coverages.Result":          coverages.NewResultBuilder,
	"hashtrees.HashTree":        hashtrees.NewBuilder,
	"hashtrees.ParentLeaf":      hashtrees.NewParentLeafBuilder,
	"hashtrees.Leaf":            hashtrees.NewLeafBuilder,
	"hashtrees.Leaves":          hashtrees.NewLeavesBuilder,
	"hashtrees.Compact":         hashtrees.NewCompactBuilder,
	"references.Reference":      references.NewBuilder,
	"references.Commits":        references.NewCommitsBuilder,
	"references.Commit":         func() references.CommitBuilder { return references.NewCommitBuilder(0) },
	"references.ContentKeys":    references.NewContentKeysBuilder,
	"references.ContentKey":     references.NewContentKeyBuilder,
	"references.Pointer":        references.NewPointerBuilder,
	"contents.Contents":         contents.NewBuilder,
	"contents.Content":          contents.NewContentBuilder,
	"instructions.Instructions": instructions.NewBuilder,
	"instructions.Instruction":  instructions.NewInstructionBuilder,
	"instructions.Assignment":   instructions.NewAssignmentBuilder,
	"instructions.Value":        instructions.NewValueBuilder,
	"instructions.Module":       ins_modules.NewBuilder,
	"instructions.Application":  ins_applications.NewBuilder,
	"instructions.Parameter":    parameters.NewBuilder,
	"instructions.Attachment":   attachments.NewBuilder,
	"instructions.Variable":     attachments.NewVariableBuilder,
	"programs.Program":          programs.NewBuilder,
	"programs.Instructions":     programs.NewInstructionsBuilder,
	"programs.Instruction":      programs.NewInstructionBuilder,
	"programs.Application":      programs.NewApplicationBuilder,
	"programs.Attachments":      programs.NewAttachmentsBuilder,
	"programs.Attachment":       programs.NewAttachmentBuilder,
	"programs.Value":            programs.NewValueBuilder,
	"programs.Modules":          modules.NewBuilder,
	"programs.Module":           modules.NewModuleBuilder,
	"queries.Query":             queries.NewBuilder,
	"queries.QueryFn":           queries.NewQueryFnBuilder,
	"queries.Token":             queries.NewTokenBuilder,
	"queries.Element":           queries.NewElementBuilder,
	"queries.Inside":            queries.NewInsideBuilder,
	"queries.Fetchers":          queries.NewFetchersBuilder,
	"queries.Fetcher":           queries.NewFetcherBuilder,
	"queries.ContentFn":         queries.NewContentFnBuilder,
}

const objects = 3

// buildPool holds the objects fields are given, three of each type.
type buildPool map[reflect.Type][]reflect.Value

// add puts an object (an interface value: its static type comes from the pointer) into the pool.
func (p buildPool) add(ptr interface{}) {
	v := reflect.ValueOf(ptr).Elem()
	c := reflect.New(v.Type()).Elem()
	c.Set(v)
	p[v.Type()] = append(p[v.Type()], c)
}

var called int

// function makes a function that tells which one it is when it is called.
func function(t reflect.Type, id int) reflect.Value {
	return reflect.MakeFunc(t, func([]reflect.Value) []reflect.Value {
		called = id
		out := []reflect.Value{}
		for i := 0; i < t.NumOut(); i++ {
			out = append(out, reflect.Zero(t.Out(i)))
		}
		return out
	})
}

func newBuildPool(res *Result) (p buildPool) {
	p = buildPool{}
	must := func(err error) {
		if err != nil {
			panic(err)
		}
	}
	defer func() {
		if r := recover(); r != nil {
			res.add(Mismatch{Props: []string{"B01"}, What: fmt.Sprintf("a value with everything it needs is not built: %v", r), Replay: string(debug.Stack())})
			p = nil
		}
	}()
	for i := 1; i <= objects; i++ {
		name := func(what string) string { return fmt.Sprintf("%s number %d", what, i) }
		card, err := cardinalities.NewBuilder().Create().WithMin(uint(i)).Now()
		must(err)
		p.add(&card)
		val, err := values.NewBuilder().Create().WithName(name("value")).WithNumber(byte('a' + i)).Now()
		must(err)
		p.add(&val)
		el, err := grammars.NewElementBuilder().Create().WithCardinality(card).WithValue(val).Now()
		must(err)
		p.add(&el)
		celem, err := grammars.NewComposeElementBuilder().Create().WithValue(val).WithOccurences(uint(i)).Now()
		must(err)
		p.add(&celem)
		compose, err := grammars.NewComposeBuilder().Create().WithName(name("compose")).WithList([]grammars.ComposeElement{celem}).Now()
		must(err)
		p.add(&compose)
		cont, err := grammars.NewContainerBuilder().Create().WithElement(el).Now()
		must(err)
		p.add(&cont)
		line, err := grammars.NewLineBuilder().Create().WithContainers([]grammars.Container{cont}).Now()
		must(err)
		p.add(&line)
		block, err := grammars.NewBlockBuilder().Create().WithLines([]grammars.Line{line}).Now()
		must(err)
		p.add(&block)
		suite, err := grammars.NewSuiteBuilder().Create().WithValid(compose).Now()
		must(err)
		p.add(&suite)
		suites, err := grammars.NewSuitesBuilder().Create().WithList([]grammars.Suite{suite}).Now()
		must(err)
		p.add(&suites)
		tok, err := grammars.NewTokenBuilder().Create().WithName(name("token")).WithBlock(block).Now()
		must(err)
		p.add(&tok)
		every, err := grammars.NewEverythingBuilder().Create().WithName(name("everything")).WithException(tok).Now()
		must(err)
		p.add(&every)
		inst, err := grammars.NewInstanceBuilder().Create().WithEverything(every).Now()
		must(err)
		p.add(&inst)
		cond, err := grammars.NewChannelConditionBuilder().Create().WithNext(tok).Now()
		must(err)
		p.add(&cond)
		channel, err := grammars.NewChannelBuilder().Create().WithToken(tok).Now()
		must(err)
		p.add(&channel)
		channels, err := grammars.NewChannelsBuilder().Create().WithList([]grammars.Channel{channel}).Now()
		must(err)
		p.add(&channels)
		gram, err := grammars.NewBuilder().Create().WithRoot(tok).Now()
		must(err)
		p.add(&gram)
		ext, err := grammars.NewExternalBuilder().Create().WithName(name("external")).WithGrammar(gram).Now()
		must(err)
		p.add(&ext)

		tval, err := trees.NewValueBuilder().Create().WithContent(byte('a' + i)).Now()
		must(err)
		p.add(&tval)
		tcont, err := trees.NewContentBuilder().Create().WithValue(tval).Now()
		must(err)
		p.add(&tcont)
		tconts, err := trees.NewContentsBuilder().Create().WithList([]trees.Content{tcont, tcont, tcont}).Now()
		must(err)
		p.add(&tconts)
		tel, err := trees.NewElementBuilder().Create().WithContents(tconts).WithGrammar(cont).Now()
		must(err)
		p.add(&tel)
		tels, err := trees.NewElementsBuilder().Create().WithList([]trees.Element{tel}).Now()
		must(err)
		p.add(&tels)
		lb := trees.NewLineBuilder().Create().WithIndex(uint(i)).WithGrammar(line)
		if i > 1 {
			lb.WithElements(tels)
		}
		tline, err := lb.Now()
		must(err)
		p.add(&tline)
		tblock, err := trees.NewBlockBuilder().Create().WithLines([]trees.Line{tline}).Now()
		must(err)
		p.add(&tblock)
		tree, err := trees.NewTreeBuilder().Create().WithGrammar(tok).WithBlock(tblock).Now()
		must(err)
		p.add(&tree)
		ttrees, err := trees.NewBuilder().Create().WithList([]trees.Tree{tree}).Now()
		must(err)
		p.add(&ttrees)

		rb := coverages.NewResultBuilder().Create()
		if i == 1 {
			rb.WithTree(tree)
		} else {
			rb.WithError(name("error"))
		}
		result, err := rb.Now()
		must(err)
		p.add(&result)
		exec, err := coverages.NewExecutionBuilder().Create().WithExpectation(suite).WithResult(result).Now()
		must(err)
		p.add(&exec)
		execs, err := coverages.NewExecutionsBuilder().Create().WithList([]coverages.Execution{exec}).Now()
		must(err)
		p.add(&execs)
		cover, err := coverages.NewCoverageBuilder().Create().WithToken(tok).WithExecutions(execs).Now()
		must(err)
		p.add(&cover)

		h := mustHash(bytes.Repeat([]byte{byte(i)}, hash.Size))
		p.add(&h)
		leaf, err := hashtrees.NewLeafBuilder().Create().WithHead(h).Now()
		must(err)
		p.add(&leaf)
		parent, err := hashtrees.NewParentLeafBuilder().Create().WithLeft(leaf).WithRight(leaf).Now()
		must(err)
		p.add(&parent)
		leaves, err := hashtrees.NewLeavesBuilder().Create().WithList([]hashtrees.Leaf{leaf, leaf}).Now()
		must(err)
		p.add(&leaves)
		htree, err := hashtrees.NewBuilder().Create().WithBlocks([][]byte{{byte(i)}, {}}).Now()
		must(err)
		p.add(&htree)

		at := time.Unix(int64(i), int64(i)).UTC()
		p.add(&at)
		proof := big.NewInt(int64(i))
		p.add(&proof)
		commit, err := references.NewCommitBuilder(0).Create().WithValues(htree).CreatedOn(at).Now()
		must(err)
		p.add(&commit)
		commits, err := references.NewCommitsBuilder().Create().WithList([]references.Commit{commit}).Now()
		must(err)
		p.add(&commits)
		ptr, err := references.NewPointerBuilder().Create().From(uint(i)).WithLength(1).Now()
		must(err)
		p.add(&ptr)
		key, err := references.NewContentKeyBuilder().Create().WithHash(h).WithKind(uint(i)).WithContent(ptr).WithCommit(h).Now()
		must(err)
		p.add(&key)
		keys, err := references.NewContentKeysBuilder().Create().WithList([]references.ContentKey{key}).Now()
		must(err)
		p.add(&keys)
		content, err := contents.NewContentBuilder().Create().WithHash(h).WithKind(uint(i)).WithData([]byte{byte(i)}).Now()
		must(err)
		p.add(&content)

		imod, err := ins_modules.NewBuilder().Create().WithIndex(uint(i)).WithName([]byte(name("module"))).Now()
		must(err)
		p.add(&imod)
		iapp, err := ins_applications.NewBuilder().Create().WithModule([]byte(name("module"))).WithName([]byte(name("application"))).Now()
		must(err)
		p.add(&iapp)
		par, err := parameters.NewBuilder().Create().WithName([]byte(name("parameter"))).Now()
		must(err)
		p.add(&par)
		ival, err := instructions.NewValueBuilder().Create().WithConstant([]byte(name("constant"))).Now()
		must(err)
		p.add(&ival)
		assign, err := instructions.NewAssignmentBuilder().Create().WithVariable([]byte(name("variable"))).WithValue(ival).Now()
		must(err)
		p.add(&assign)
		variable, err := attachments.NewVariableBuilder().Create().WithCurrent([]byte(name("variable"))).WithTarget(uint(i)).Now()
		must(err)
		p.add(&variable)
		attach, err := attachments.NewBuilder().Create().WithVariable(variable).WithApplication([]byte(name("application"))).Now()
		must(err)
		p.add(&attach)
		instr, err := instructions.NewInstructionBuilder().Create().WithModule(imod).Now()
		must(err)
		p.add(&instr)
		instrs, err := instructions.NewBuilder().Create().WithList([]instructions.Instruction{instr}).Now()
		must(err)
		p.add(&instrs)

		var fn modules.ExecuteFn
		for _, t := range []reflect.Type{reflect.TypeOf(fn), reflect.TypeOf(queries.SingleQueryFn(nil)), reflect.TypeOf(queries.MultiQueryFn(nil)),
			reflect.TypeOf(queries.SingleContentFn(nil)), reflect.TypeOf(queries.MultiContentFn(nil))} {
			p[t] = append(p[t], function(t, i))
		}
		fn = p[reflect.TypeOf(fn)][i-1].Interface().(modules.ExecuteFn)
		mod, err := modules.NewModuleBuilder().Create().WithIndex(uint(10 * i)).WithFunc(fn).Now()
		must(err)
		p.add(&mod)
		papp, err := programs.NewApplicationBuilder().Create().WithIndex(uint(i)).WithModule(mod).Now()
		must(err)
		p.add(&papp)
		pval, err := programs.NewValueBuilder().Create().WithConstant([]byte(name("constant"))).Now()
		must(err)
		p.add(&pval)
		patt, err := programs.NewAttachmentBuilder().Create().WithValue(pval).WithLocal(uint(i)).Now()
		must(err)
		p.add(&patt)
		patts, err := programs.NewAttachmentsBuilder().Create().WithList([]programs.Attachment{patt}).Now()
		must(err)
		p.add(&patts)
		pins, err := programs.NewInstructionBuilder().Create().WithValue(pval).Now()
		must(err)
		p.add(&pins)
		pinss, err := programs.NewInstructionsBuilder().Create().WithList([]programs.Instruction{pins}).Now()
		must(err)
		p.add(&pinss)
		prog, err := programs.NewBuilder().Create().WithInstructions(pinss).Now()
		must(err)
		p.add(&prog)

		qel, err := queries.NewElementBuilder().Create().WithName(name("element")).WithIndex(uint(i)).Now()
		must(err)
		p.add(&qel)
		qtok, err := queries.NewTokenBuilder().Create().WithName(name("token")).WithReverseName(name("reverse")).WithElement(qel).Now()
		must(err)
		p.add(&qtok)
		cfn, err := queries.NewContentFnBuilder().Create().WithSingle(p[reflect.TypeOf(queries.SingleContentFn(nil))][i-1].Interface().(queries.SingleContentFn)).Now()
		must(err)
		p.add(&cfn)
		inside, err := queries.NewInsideBuilder().Create().WithFn(cfn).Now()
		must(err)
		p.add(&inside)
		qfn, err := queries.NewQueryFnBuilder().Create().WithSingle(p[reflect.TypeOf(queries.SingleQueryFn(nil))][i-1].Interface().(queries.SingleQueryFn)).Now()
		must(err)
		p.add(&qfn)
		query, err := queries.NewBuilder().Create().WithToken(qtok).WithInside(inside).WithFn(qfn).Now()
		must(err)
		p.add(&query)
		fetcher, err := queries.NewFetcherBuilder().Create().WithQuery(query).Now()
		must(err)
		p.add(&fetcher)
		fetchers, err := queries.NewFetchersBuilder().Create().WithList([]queries.Fetcher{fetcher}).Now()
		must(err)
		p.add(&fetchers)
	}
	return p
}

// find tells which object of the pool a value is: 0 for none at all, -1 for an unknown one.
func (p buildPool) find(t reflect.Type, v reflect.Value) int {
	if !v.IsValid() {
		return 0
	}
	switch v.Kind() {
	case reflect.Interface, reflect.Ptr, reflect.Func, reflect.Slice:
		if v.IsNil() {
			return 0
		}
	}
	if v.Kind() == reflect.Ptr && v.Type() != t && v.Type().Elem() == t {
		v = v.Elem()
	}
	if v.Kind() == reflect.Func {
		args := []reflect.Value{}
		for i := 0; i < v.Type().NumIn(); i++ {
			args = append(args, reflect.Zero(v.Type().In(i)))
		}
		called = -1
		v.Call(args)
		return called
	}
	for i, one := range p[t] {
		switch x := v.Interface().(type) {
		case hash.Hash:
			if bytes.Equal(x, one.Interface().(hash.Hash)) {
				return i + 1
			}
		case time.Time:
			if x.Equal(one.Interface().(time.Time)) {
				return i + 1
			}
		case *big.Int:
			if x.Cmp(one.Interface().(*big.Int)) == 0 {
				return i + 1
			}
		default:
			if v.Interface() == one.Interface() {
				return i + 1
			}
		}
	}
	return -1
}

func setterOf(b reflect.Value, f BuildField) reflect.Value {
	m := b.MethodByName(f.Set)
	if !m.IsValid() {
		fatal("no method %s on %s", f.Set, b.Type())
	}
	return m
}

// argument makes what a setter is given.
func (p buildPool) argument(t reflect.Type, typ string, v []int, rng *rand.Rand) reflect.Value {
	out := reflect.New(t).Elem()
	raw := func() []byte {
		b := make([]byte, len(v), len(v)+rng.Intn(4))
		for i := range v {
			b[i] = byte(v[i])
		}
		return b
	}
	switch typ {
	case "one", "val":
		if len(v) > 0 {
			if v[0] < 1 || v[0] > len(p[t]) {
				fatal("no object %d of %s", v[0], t)
			}
			out.Set(p[t][v[0]-1])
		}
	case "list", "nums":
		if len(v) == 0 && rng.Intn(2) == 0 {
			return out
		}
		out.Set(reflect.MakeSlice(t, len(v), len(v)+rng.Intn(3)))
		for i, one := range v {
			if typ == "nums" {
				out.Index(i).SetUint(uint64(one))
				continue
			}
			if one < 1 || one > len(p[t.Elem()]) {
				fatal("no object %d of %s", one, t.Elem())
			}
			out.Index(i).Set(p[t.Elem()][one-1])
		}
	case "text":
		out.SetString(string(raw()))
	case "bytes":
		if len(v) > 0 {
			out.SetBytes(raw())
		}
	case "rest":
		if len(v) > 0 || rng.Intn(2) == 0 {
			out.SetBytes(raw())
		}
	case "num", "count":
		out.SetUint(wide(uint64(v[0]), t))
	default:
		fatal("unknown type %s", typ)
	}
	return out
}

// wide stretches large numbers over all the bits of their type; narrow takes them back.
func wide(x uint64, t reflect.Type) uint64 {
	if x >= 1<<29 && t.Bits() == 64 {
		return x + 1<<62
	}
	return x
}

func narrow(x uint64) uint64 {
	if x >= 1<<62 {
		return x - 1<<62
	}
	return x
}

// getter follows a path of getters; nothing is answered behind a missing value.
func getter(v reflect.Value, path string) reflect.Value {
	if _, ok := v.Interface().(grammars.Suite); ok {
		// one content, either valid or not
		s := v.Interface().(grammars.Suite)
		switch path {
		case "Valid", "Invalid":
			if s.IsValid() != (path == "Valid") {
				return reflect.Value{}
			}
			c := s.Content()
			return reflect.ValueOf(&c).Elem()
		case "IsInvalid":
			return reflect.ValueOf(!s.IsValid())
		}
	}
	for _, name := range strings.Split(path, ".") {
		if v.Kind() == reflect.Interface {
			if v.IsNil() {
				return reflect.Value{}
			}
		}
		m := v.MethodByName(name)
		if !m.IsValid() {
			fatal("no method %s on %s", name, v.Type())
		}
		v = m.Call(nil)[0]
	}
	return v
}

// encode tells what a getter answered.
func (p buildPool) encode(param reflect.Type, typ string, v reflect.Value) []int {
	out := []int{}
	if !v.IsValid() {
		return out
	}
	switch typ {
	case "one", "val":
		if id := p.find(param, v); id != 0 {
			out = append(out, id)
		}
	case "list":
		for i := 0; i < v.Len(); i++ {
			out = append(out, p.find(param.Elem(), v.Index(i)))
		}
	case "nums":
		for i := 0; i < v.Len(); i++ {
			out = append(out, int(v.Index(i).Uint()))
		}
	case "text":
		for i := 0; i < v.Len(); i++ {
			out = append(out, int(v.String()[i]))
		}
	case "bytes", "rest":
		for _, b := range v.Bytes() {
			out = append(out, int(b))
		}
	case "num", "count":
		if v.Kind() == reflect.Ptr {
			if v.IsNil() {
				return out
			}
			v = v.Elem()
		}
		out = append(out, int(narrow(v.Uint())))
	case "flag":
		if v.Bool() {
			out = append(out, 1)
		}
	}
	return out
}

// read asks a value for everything.
func (p buildPool) read(k BuildKind, builder, v reflect.Value) BuildRead {
	out := BuildRead{Fields: [][]int{}, Has: []int{}, Extra: [][]int{}}
	params := []reflect.Type{}
	for _, f := range k.Fields {
		var param reflect.Type
		if f.Type != "flag" {
			param = setterOf(builder, f).Type().In(0)
		} else {
			param = reflect.TypeOf(false)
		}
		params = append(params, param)
		out.Fields = append(out.Fields, p.encode(param, f.Type, getter(v, f.Get)))
		has := 2
		if f.Has != "" {
			has = 0
			if getter(v, f.Has).Bool() {
				has = 1
			}
		}
		out.Has = append(out.Has, has)
	}
	for _, x := range k.Extra {
		ans := []int{}
		switch x {
		case "Name":
			name := getter(v, "Name").String()
			for i, f := range k.Fields {
				if f.Need != "alt" {
					continue
				}
				if f.Type == "text" {
					if len(ans) == 0 {
						ans = append(ans, i+1)
						for j := 0; j < len(name); j++ {
							ans = append(ans, int(name[j]))
						}
					}
					continue
				}
				for j, one := range p[params[i]] {
					if getter(one, "Name").String() == name {
						ans = []int{i + 1, j + 1}
					}
				}
			}
		case "Successful":
			b := v.Interface().(trees.Block)
			if b.HasSuccessful() != (b.Successful() != nil) {
				ans = append(ans, -1)
			}
			if b.Successful() != nil {
				ans = append(ans, p.find(params[0].Elem(), reflect.ValueOf(b.Successful())))
			}
		case "Error":
			if getter(v, "ContainsError").Bool() {
				ans = append(ans, 1)
			}
		case "Latest":
			ans = append(ans, p.find(params[0].Elem(), getter(v, "Latest")))
		case "Fetch":
			for _, one := range p[params[0].Elem()] {
				var arg reflect.Value
				switch o := one.Interface().(type) {
				case trees.Element:
					arg = reflect.ValueOf(o.Grammar().Name())
				case modules.Module:
					arg = reflect.ValueOf(o.Index())
				case references.Commit:
					arg = reflect.ValueOf(o.Hash())
				case references.ContentKey:
					arg = reflect.ValueOf(o.Hash())
				}
				got := v.MethodByName("Fetch").Call([]reflect.Value{arg})
				if !got[1].IsNil() {
					ans = append(ans, 0)
					continue
				}
				ans = append(ans, p.find(params[0].Elem(), got[0]))
			}
		}
		out.Extra = append(out.Extra, ans)
	}
	return out
}

var refused = BuildRead{Fields: [][]int{}, Has: []int{}, Extra: [][]int{}}

// runBuilds runs a script and tells what was built, right away and in the end.
func (p buildPool) runBuilds(k BuildKind, script []BuildOp, rng *rand.Rand) (first, again []BuildRead, bad string) {
	defer func() {
		if r := recover(); r != nil {
			bad = fmt.Sprintf("panic: %v", r)
		}
	}()
	fn, ok := builderOf[k.Kind]
	if !ok {
		fatal("no builder of %s", k.Kind)
	}
	fresh := func() reflect.Value { return reflect.ValueOf(fn).Call(nil)[0] }
	builders := []reflect.Value{fresh()}
	first, again = []BuildRead{}, []BuildRead{}
	made := []reflect.Value{}
	type given struct {
		list reflect.Value
		op   BuildOp
		typ  string
	}
	lists := []given{}
	for n, op := range script {
		b := builders[op.B-1]
		switch op.Op {
		case "set":
			f := k.Fields[op.F-1]
			m := setterOf(b, f)
			args := []reflect.Value{}
			if f.Type != "flag" {
				args = append(args, p.argument(m.Type().In(0), f.Type, op.V, rng))
				if args[0].Kind() == reflect.Slice && f.Type != "val" && f.Type != "one" && args[0].Len() == len(op.V) {
					lists = append(lists, given{args[0], op, f.Type})
				}
			}
			out := m.Call(args)[0]
			// what it answers is the builder itself
			if rng.Intn(2) == 0 {
				builders[op.B-1] = out
			}
		case "create":
			builders = append(builders, b.MethodByName("Create").Call(nil)[0])
		case "now":
			out := b.MethodByName("Now").Call(nil)
			if !out[1].IsNil() {
				made = append(made, reflect.Value{})
				first = append(first, refused)
				if !out[0].IsNil() {
					bad = fmt.Sprintf("step %d: a value and an error", n)
				}
				continue
			}
			if out[0].IsNil() {
				bad = fmt.Sprintf("step %d: neither a value nor an error", n)
				return
			}
			made = append(made, out[0])
			first = append(first, p.read(k, b, out[0]))
		default:
			fatal("unknown operation %s", op.Op)
		}
	}
	// what was given is left as it is
	for _, g := range lists {
		if got := p.encode(g.list.Type(), g.typ, g.list); jsonStr(got) != jsonStr(g.op.V) {
			bad = fmt.Sprintf("the list given to field %d changed: %v instead of %v", g.op.F, got, g.op.V)
			return
		}
	}
	for _, v := range made {
		if !v.IsValid() {
			again = append(again, refused)
			continue
		}
		again = append(again, p.read(k, builders[0], v))
	}
	return
}

func sameReads(a, b []BuildRead) int {
	for i := range a {
		if i >= len(b) || jsonStr(a[i]) != jsonStr(b[i]) {
			return i
		}
	}
	return -1
}

func buildTable(path string) map[string]BuildKind {
	fh, err := os.Open(path)
	must(err)
	defer fh.Close()
	sc := bufio.NewScanner(fh)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	out := map[string]BuildKind{}
	for sc.Scan() {
		var c BuildCase
		if json.Unmarshal(sc.Bytes(), &c) == nil && len(c.Table) > 0 {
			for _, k := range c.Table {
				out[k.Kind] = k
			}
			return out
		}
	}
	fatal("no table in %s", path)
	return nil
}

// cmdBuildReplay runs the scripts of MCBuilders.tla.
func cmdBuildReplay(f map[string]string) {
	seed := int64(atoi(f["seed"], 1))
	table := buildTable(f["in"])
	res := &Result{}
	var mu sync.Mutex
	kinds := map[string]int{}
	// functions tell who they are through a variable
	p := newBuildPool(res)
	if p == nil {
		res.finish(f["out"])
		return
	}
	var one sync.Mutex
	runPool(f["in"], func(n int, line []byte) {
		var c BuildCase
		if err := json.Unmarshal(line, &c); err != nil {
			fatal("case %d: %v", n, err)
		}
		if c.Kind == "" {
			return
		}
		k := table[c.Kind]
		var first, again []BuildRead
		var bad string
		one.Lock()
		msg := guard(20*time.Second, func() { first, again, bad = p.runBuilds(k, c.Script, newRand(seed, n)) })
		one.Unlock()
		if msg != "" {
			bad = msg
			if msg[0] == 'h' {
				hung()
			}
		}
		if bad == "" {
			if i := sameReads(c.Built, first); i >= 0 {
				bad = fmt.Sprintf("%s: number %d that is built: expected %s, got %s", c.Kind, i+1, jsonStr(c.Built[i]), jsonStr(first[i]))
			} else if i := sameReads(c.Built, again); i >= 0 {
				bad = fmt.Sprintf("%s: number %d that was built changed: expected %s, got %s", c.Kind, i+1, jsonStr(c.Built[i]), jsonStr(again[i]))
			}
		}
		mu.Lock()
		defer mu.Unlock()
		res.Cases++
		res.Steps += len(c.Script)
		kinds[c.Kind]++
		if bad != "" {
			c.Seed, c.Case = seed, n
			res.add(Mismatch{Props: []string{"B01"}, Case: n, What: bad, Exp: c.Built, Got: first, Replay: c})
		}
	})
	res.Extra = map[string]interface{}{"kinds": len(kinds)}
	if len(kinds) != len(table) {
		fatal("%d kinds of %d were built", len(kinds), len(table))
	}
	res.finish(f["out"])
}

// cmdBuildRandom records random uses of the builders for TLC to judge.
func cmdBuildRandom(f map[string]string) {
	seed := int64(atoi(f["seed"], 1))
	runs := atoi(f["runs"], 10)
	length := atoi(f["length"], 20)
	table := buildTable(f["in"])
	res := &Result{}
	p := newBuildPool(res)
	if p == nil {
		res.finish(f["out"] + ".res")
		return
	}
	fh, err := os.Create(f["out"])
	must(err)
	defer fh.Close()
	w := bufio.NewWriter(fh)
	defer w.Flush()
	names := []string{}
	for name := range table {
		names = append(names, name)
	}
	sort.Strings(names)
	n := 0
	for _, name := range names {
		k := table[name]
		for r := 0; r < runs; r++ {
			n++
			rng := newRand(seed, n)
			script := randomBuild(k, p, length, rng)
			var first, again []BuildRead
			var bad string
			if msg := guard(20*time.Second, func() { first, again, bad = p.runBuilds(k, script, rng) }); msg != "" {
				bad = msg
			}
			res.Cases++
			res.Steps += len(script)
			c := BuildCase{Kind: name, Script: script, Built: first, Again: again, Seed: seed, Case: n}
			if bad != "" {
				res.add(Mismatch{Props: []string{"B01"}, Case: n, What: name + ": " + bad, Replay: c})
				continue
			}
			fmt.Fprintln(w, jsonStr(c))
		}
	}
	res.finish(f["out"] + ".res")
}

// randomBuild draws operations; a builder with several alternatives, or with none where that is left open, does not build.
func randomBuild(k BuildKind, p buildPool, length int, rng *rand.Rand) []BuildOp {
	fn := builderOf[k.Kind]
	proto := reflect.ValueOf(fn).Call(nil)[0]
	state := []map[int]bool{{}}
	script := []BuildOp{}
	any := false
	for _, x := range k.Extra {
		any = any || x == "any"
	}
	open := func(b map[int]bool) bool {
		alts, all := 0, 0
		for i, f := range k.Fields {
			if b[i] {
				all++
				if f.Need == "alt" {
					alts++
				}
			}
		}
		return alts > 1 || any && all == 0
	}
	value := func(i int) []int {
		f := k.Fields[i]
		out := []int{}
		some := func(n int, pick func() int) []int {
			for len(out) < n {
				out = append(out, pick())
			}
			return out
		}
		if rng.Intn(6) == 0 && f.Type != "num" && f.Type != "flag" && f.Type != "val" {
			if f.Type == "count" {
				return []int{0}
			}
			return out
		}
		switch f.Type {
		case "one", "val":
			return []int{1 + rng.Intn(objects)}
		case "list":
			return some(1+[]int{0, 1, 1, 2, 3, 10, 40}[rng.Intn(7)], func() int { return 1 + rng.Intn(objects) })
		case "nums":
			return some(1+rng.Intn(6), func() int { return rng.Intn(1000) })
		case "text", "bytes", "rest":
			return some(1+[]int{0, 1, 2, 5, 30, 300}[rng.Intn(6)], func() int { return rng.Intn(256) })
		case "num", "count":
			most := 1 << 30
			if setterOf(proto, f).Type().In(0).Kind() == reflect.Uint8 {
				most = 255
			}
			x := []int{0, 1, 2, 127, 128, 255, 256, 65535, 65536, most}[rng.Intn(10)]
			if rng.Intn(2) == 0 {
				x = rng.Intn(most)
			}
			if x > most {
				x = most
			}
			if f.Type == "count" && x == 0 {
				x = 1
			}
			return []int{x}
		}
		return []int{1}
	}
	for len(script) < length {
		b := rng.Intn(len(state))
		switch rng.Intn(8) {
		case 0:
			if len(state) < 4 {
				state = append(state, map[int]bool{})
				script = append(script, BuildOp{Op: "create", B: b + 1, V: []int{}})
			}
		case 1, 2:
			if !open(state[b]) {
				script = append(script, BuildOp{Op: "now", B: b + 1, V: []int{}})
			}
		default:
			i := rng.Intn(len(k.Fields))
			v := value(i)
			if k.Fields[i].Need == "alt" && len(v) > 0 {
				// the other alternatives are taken back before, where they can be
				stuck := false
				for j, f := range k.Fields {
					if j == i || f.Need != "alt" || !state[b][j] {
						continue
					}
					if f.Type == "num" || f.Type == "val" {
						stuck = true
						continue
					}
					script = append(script, BuildOp{Op: "set", B: b + 1, F: j + 1, V: []int{}})
					state[b][j] = false
				}
				if stuck {
					continue
				}
			}
			script = append(script, BuildOp{Op: "set", B: b + 1, F: i + 1, V: v})
			state[b][i] = len(v) > 0 && !(k.Fields[i].Type == "count" && v[0] == 0)
		}
	}
	return script
}

func init() {
	commands["build-replay"] = cmdBuildReplay
	commands["build-random"] = cmdBuildRandom
}
