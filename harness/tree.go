package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"sync"
	"time"

	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hash"
	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hashtrees"
)

// TreeCase is a state of MCHashTree.tla with everything the tree has to answer there.
type TreeCase struct {
	Blocks []int `json:"blocks"`
	Given  []int `json:"given"`
	Leaves []int `json:"leaves"`
	Height int   `json:"height"`
	OK     bool  `json:"ok"`
	Out    []int `json:"out"`
	Seed   int64 `json:"seed,omitempty"`
	Case   int   `json:"caseno,omitempty"`
	Head   int   `json:"head"`
}

// blockSet draws the bytes of the blocks 0..n: 0 is the empty one.
func blockSet(rng *rand.Rand, n int) [][]byte {
	if rng.Intn(4) == 0 {
		return family(rng, n)
	}
	out := [][]byte{{}}
	seen := map[string]bool{"": true}
	sizes := []int{1, 2, 3, 8, 31, 63, 64, 65, 127, 128, 129, 200, 1000}
	for len(out) <= n {
		size := sizes[rng.Intn(len(sizes))]
		b := make([]byte, size)
		switch rng.Intn(5) {
		case 0:
			rng.Read(b)
		case 4:
			// the same as an earlier block up to one byte
			prev := out[rng.Intn(len(out))]
			if rng.Intn(3) > 0 {
				// as long as a digest, which stands for itself
				if len(prev) != 64 {
					prev = make([]byte, 64)
				}
			}
			b = append([]byte{}, prev...)
			if len(b) > 0 {
				b[[]int{0, len(b) / 2, len(b) - 1, rng.Intn(len(b))}[rng.Intn(4)]] ^= byte(1 << uint(rng.Intn(8)))
			}
		case 1:
			for i := range b {
				b[i] = byte(rng.Intn(3))
			}
		case 2:
			// a relative of an earlier block: a prefix, or the same with one more byte
			prev := out[rng.Intn(len(out))]
			b = append([]byte{}, prev...)
			if rng.Intn(2) == 0 && len(b) > 1 {
				b = b[:len(b)-1]
			} else {
				b = append(b, byte(rng.Intn(2)))
			}
		default:
			b = []byte(fmt.Sprintf("block %d", len(out)))
		}
		if seen[string(b)] {
			continue
		}
		seen[string(b)] = true
		out = append(out, b)
	}
	return out
}

// family draws blocks as long as a digest, which stand for themselves, that have all but one of their bytes in common.
func family(rng *rand.Rand, n int) [][]byte {
	common := make([]byte, 64)
	if rng.Intn(2) == 0 {
		rng.Read(common)
	}
	at := []int{0, 1, 7, 8, 15, 16, 31, 32, 33, 62, 63}[rng.Intn(11)]
	out := [][]byte{{}}
	for len(out) <= n {
		b := append([]byte{}, common...)
		b[at] = byte(len(out))
		out = append(out, b)
	}
	return out
}

// spare returns a list of copies of the blocks in a slice with spare capacity, every block with spare capacity as well.
func spare(ids []int, blocks [][]byte) [][]byte {
	out := make([][]byte, len(ids), len(ids)+6)
	for i, id := range ids {
		one := make([]byte, len(blocks[id]), len(blocks[id])+9)
		copy(one, blocks[id])
		out[i] = one
	}
	full := out[:cap(out)]
	for i := len(ids); i < len(full); i++ {
		full[i] = []byte("spare")
	}
	return out
}

func untouched(list [][]byte, ids []int, blocks [][]byte) string {
	if len(list) != len(ids) {
		return "length changed"
	}
	full := list[:cap(list)]
	for i := range full {
		if i < len(ids) {
			if !bytes.Equal(full[i], blocks[ids[i]]) {
				return fmt.Sprintf("element %d changed", i)
			}
			for _, b := range full[i][len(full[i]):cap(full[i])] {
				if b != 0 {
					return fmt.Sprintf("bytes after element %d changed", i)
				}
			}
			continue
		}
		if string(full[i]) != "spare" {
			return fmt.Sprintf("element %d of the spare capacity changed", i)
		}
	}
	return ""
}

func idsOf(list [][]byte, blocks [][]byte) []int {
	out := []int{}
	for _, one := range list {
		id := -1
		for i := range blocks {
			if bytes.Equal(blocks[i], one) {
				id = i
			}
		}
		out = append(out, id)
	}
	return out
}

type treeDiff struct {
	prop string
	what string
}

func leafHeads(l hashtrees.Leaves) [][]byte {
	out := [][]byte{}
	for _, one := range l.Leaves() {
		out = append(out, one.Head().Bytes())
	}
	return out
}

func sameHeads(a, b [][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !bytes.Equal(a[i], b[i]) {
			return false
		}
	}
	return true
}

// digest says how the comparison or the text form of a digest is wrong.
func digest(h hash.Hash, salt int) string {
	raw := append([]byte{}, h...)
	if !bytes.Equal(h.Bytes(), raw) {
		return "its bytes are others"
	}
	back, err := hash.NewAdapter().FromString(h.String())
	if err != nil || !bytes.Equal(*back, raw) {
		return fmt.Sprintf("its text form %q reads back as something else (%v)", h.String(), err)
	}
	if !h.Compare(hash.Hash(raw)) {
		return "it is not equal to its copy"
	}
	for _, i := range []int{0, len(raw) - 1, salt % len(raw), (salt * 7) % len(raw)} {
		other := append([]byte{}, raw...)
		other[i] ^= byte(1 << uint(salt%8))
		if h.Compare(hash.Hash(other)) || hash.Hash(other).Compare(h) || hash.Hash(other).String() == h.String() {
			return fmt.Sprintf("it is equal to one that differs in byte %d", i)
		}
	}
	return ""
}

// innerNodes compares every inner node of a tree with the tree of the blocks below it.
func innerNodes(tree hashtrees.HashTree, heads [][]byte, c TreeCase, blocks [][]byte) []string {
	out := []string{}
	bad := func(format string, args ...interface{}) { out = append(out, fmt.Sprintf(format, args...)) }
	adapter := hashtrees.NewLeafAdapter()
	if whole, err := adapter.ParentLeafToHashTree(tree.Parent()); err != nil || !bytes.Equal(whole.Head().Bytes(), tree.Head().Bytes()) {
		bad("the parent of the tree is another tree (%v)", err)
	}
	if all, err := adapter.ParentLeafToLeaves(tree.Parent()); err != nil || !sameHeads(leafHeads(all), heads) {
		bad("the parent of the tree has other leaves (%v)", err)
	}
	var node func(l hashtrees.Leaf, from, to int)
	node = func(l hashtrees.Leaf, from, to int) {
		at := fmt.Sprintf("the node over leaves %d to %d: ", from, to)
		mine := heads[from:to]
		own, err := adapter.LeafToLeaves(l)
		if err != nil || !sameHeads(leafHeads(own), mine) {
			bad("%sother leaves (%v)", at, err)
			return
		}
		if enc, err := adapter.LeafToContent(l); err != nil {
			bad("%sencoding: %v", at, err)
		} else if back, err := adapter.ContentToLeaf(enc); err != nil {
			bad("%sdecoding: %v", at, err)
		} else if again, err := adapter.LeafToLeaves(back); err != nil || !sameHeads(leafHeads(again), mine) || !bytes.Equal(back.Head().Bytes(), l.Head().Bytes()) || back.Height() != l.Height() {
			bad("%sdecoded, it is another one (%v)", at, err)
		}
		if !l.HasParent() {
			if to-from != 1 || !bytes.Equal(l.Head().Bytes(), mine[0]) {
				bad("%sno nodes below", at)
			}
			return
		}
		sub, err := adapter.ParentLeafToHashTree(l.Parent())
		if err != nil || !bytes.Equal(sub.Head().Bytes(), l.Head().Bytes()) {
			bad("%sits tree has another head (%v)", at, err)
			return
		}
		list := [][]byte{}
		for i := from; i < to; i++ {
			block := []byte{}
			if i < len(c.Blocks) {
				block = blocks[c.Blocks[i]]
			}
			list = append(list, block)
		}
		if built, err := hashtrees.NewBuilder().Create().WithBlocks(list).Now(); err != nil || !bytes.Equal(built.Head().Bytes(), l.Head().Bytes()) {
			bad("%sthe tree of its blocks has another head (%v)", at, err)
		}
		node(l.Parent().Left(), from, (from+to)/2)
		node(l.Parent().Right(), (from+to)/2, to)
	}
	if n := len(heads); n >= 2 {
		node(tree.Parent().Left(), 0, n/2)
		node(tree.Parent().Right(), n/2, n)
	}
	return out
}

// useTree builds the tree of a case and records everything it answers.
func useTree(c TreeCase, blocks [][]byte) (got TreeCase, head []byte, diffs []treeDiff) {
	got = TreeCase{Blocks: c.Blocks, Given: c.Given, Leaves: []int{}, Out: []int{}}
	bad := func(prop, format string, args ...interface{}) {
		diffs = append(diffs, treeDiff{prop, fmt.Sprintf(format, args...)})
	}
	adapter := hashtrees.NewAdapter()
	compactAdapter := hashtrees.NewCompactAdapter()
	input := spare(c.Blocks, blocks)
	tree, err := hashtrees.NewBuilder().Create().WithBlocks(input).Now()
	if err != nil {
		bad("H02", "building: %v", err)
		return
	}
	if msg := untouched(input, c.Blocks, blocks); msg != "" {
		bad("H02", "building changed the caller's blocks: %s", msg)
	}
	head = tree.Head().Bytes()
	if msg := digest(tree.Head(), len(c.Blocks)); msg != "" {
		bad("H02", "the head: %s", msg)
	}
	again, err := hashtrees.NewBuilder().Create().WithBlocks(spare(c.Blocks, blocks)).Now()
	if err != nil || !bytes.Equal(again.Head().Bytes(), head) {
		bad("H02", "the same blocks give another head (%v)", err)
	}
	got.Height = int(tree.Height())
	compact, err := adapter.ToCompact(tree)
	if err != nil {
		bad("H02", "compact: %v", err)
		return
	}
	if !bytes.Equal(compact.Head().Bytes(), head) {
		bad("H02", "the compact form has another head")
	}
	heads := leafHeads(compact.Leaves())
	if int(compact.Length()) != len(heads) {
		bad("H02", "the compact form has %d leaves and a length of %d", len(heads), compact.Length())
	}
	if p, err := adapter.ToLength(tree); err != nil || int(*p) != len(heads) {
		bad("H02", "the tree has %d leaves and another length (%v)", len(heads), err)
	}
	// the leaf of a block does not depend on where it is: learn it from a tree of its own
	leafOf := map[string]int{}
	for i := range blocks {
		one, err := hashtrees.NewBuilder().Create().WithBlocks([][]byte{blocks[i], blocks[i]}).Now()
		if err != nil {
			bad("H02", "building a pair: %v", err)
			return
		}
		leafOf[string(one.Parent().Left().Head().Bytes())] = i
	}
	for _, lh := range heads {
		id := -1
		if i, ok := leafOf[string(lh)]; ok {
			id = i
		}
		got.Leaves = append(got.Leaves, id)
	}
	// encodings
	enc, err := adapter.ToContent(tree)
	if err != nil {
		bad("H02", "encoding: %v", err)
		return
	}
	kept := append([]byte{}, enc...)
	back, err := adapter.ToHashTree(enc)
	if err != nil {
		bad("H02", "decoding: %v", err)
		return
	}
	if !bytes.Equal(kept, enc) {
		bad("H02", "decoding changed the encoded bytes")
	}
	// the decoded value must not live in the caller's bytes
	for i := range enc {
		enc[i] ^= 0x5a
	}
	if !bytes.Equal(back.Head().Bytes(), head) || int(back.Height()) != got.Height {
		bad("H02", "the decoded tree has another head or height")
	}
	if bc, err := adapter.ToCompact(back); err != nil || !sameHeads(leafHeads(bc.Leaves()), heads) {
		bad("H02", "the decoded tree has other leaves (%v)", err)
	}
	if enc2, err := adapter.ToContent(back); err != nil || !bytes.Equal(enc2, kept) {
		bad("H02", "the decoded tree encodes differently (%v)", err)
	}
	cenc, err := compactAdapter.ToContent(compact)
	if err != nil {
		bad("H02", "encoding the compact form: %v", err)
		return
	}
	cback, err := compactAdapter.ToCompact(cenc)
	if err != nil {
		bad("H02", "decoding the compact form: %v", err)
		return
	}
	if !bytes.Equal(cback.Head().Bytes(), head) || !sameHeads(leafHeads(cback.Leaves()), heads) || cback.Length() != compact.Length() {
		bad("H02", "the decoded compact form differs")
	}
	rebuilt, err := hashtrees.NewLeavesAdapter().ToHashTree(cback.Leaves())
	if err != nil {
		bad("H02", "rebuilding from the leaves: %v", err)
		return
	}
	if enc3, err := adapter.ToContent(rebuilt); err != nil || !bytes.Equal(enc3, kept) {
		bad("H02", "the tree rebuilt from the leaves of its compact form differs (%v)", err)
	}
	// every inner head is a tree of its own below it
	var walk func(l hashtrees.Leaf) int
	walk = func(l hashtrees.Leaf) int {
		if !l.HasParent() {
			return 1
		}
		return walk(l.Parent().Left()) + walk(l.Parent().Right())
	}
	left, right := walk(tree.Parent().Left()), walk(tree.Parent().Right())
	if left != right || left+right != len(heads) {
		bad("H02", "the tree is not balanced: %d and %d leaves", left, right)
	}
	for _, one := range innerNodes(tree, heads, c, blocks) {
		bad("H02", "%s", one)
	}
	// ordering, with each of the three trees
	for i, one := range []hashtrees.HashTree{tree, back, rebuilt} {
		given := spare(c.Given, blocks)
		out, err := adapter.ToOrder(one, given)
		if msg := untouched(given, c.Given, blocks); msg != "" {
			bad("H01", "ordering changed the given blocks: %s", msg)
		}
		ids := []int{}
		if err == nil {
			ids = idsOf(out, blocks)
		}
		if i == 0 {
			got.OK, got.Out = err == nil, ids
		} else if (err == nil) != got.OK || !intsEq(ids, got.Out) {
			bad("H01", "ordering by the %s tree: %v %v, by the original one: %v %v", []string{"", "decoded", "rebuilt"}[i], err == nil, ids, got.OK, got.Out)
		}
	}
	return
}

func caseBlocks(rng *rand.Rand, c TreeCase) [][]byte {
	n := 1
	for _, l := range [][]int{c.Blocks, c.Given} {
		for _, id := range l {
			if id > n {
				n = id
			}
		}
	}
	return blockSet(rng, n)
}

// judge compares what a tree answered with the specification.
func (c TreeCase) judge(got TreeCase) (diffs []treeDiff) {
	if !intsEq(c.Leaves, got.Leaves) {
		diffs = append(diffs, treeDiff{"H02", fmt.Sprintf("leaves: expected %v, got %v", c.Leaves, got.Leaves)})
	}
	if c.Height != got.Height {
		diffs = append(diffs, treeDiff{"H02", fmt.Sprintf("height: expected %d, got %d", c.Height, got.Height)})
	}
	if c.OK != got.OK || !intsEq(c.Out, got.Out) {
		diffs = append(diffs, treeDiff{"H01", fmt.Sprintf("ordering %v by the tree of %v: expected %v %v, got %v %v", c.Given, c.Blocks, c.OK, c.Out, got.OK, got.Out)})
	}
	return
}

// cmdTreeReplay runs the states of MCHashTree.tla.
func cmdTreeReplay(f map[string]string) {
	seed := int64(atoi(f["seed"], 1))
	res := &Result{}
	var mu sync.Mutex
	// heads by the bytes of the padded list, to tell whether heads identify lists
	byHead := map[string]string{}
	byList := map[string]string{}
	shared := blockSet(newRand(seed, 99991), 12)
	report := func(n int, c TreeCase, d treeDiff) {
		c.Seed, c.Case = seed, n
		res.add(Mismatch{Props: []string{d.prop}, Case: n, What: d.what, Replay: c})
	}
	runPool(f["in"], func(n int, line []byte) {
		var c TreeCase
		if err := json.Unmarshal(line, &c); err != nil {
			fatal("case %d: %v", n, err)
		}
		// half of the cases share their blocks, so that heads can be compared between cases
		blocks := shared
		if n%2 == 1 {
			blocks = caseBlocks(newRand(seed, n), c)
		}
		var got TreeCase
		var head []byte
		var diffs []treeDiff
		msg := guard(20*time.Second, func() { got, head, diffs = useTree(c, blocks) })
		if msg != "" {
			diffs = []treeDiff{{"*", msg}}
			if msg[0] == 'h' {
				hung()
			}
		} else {
			diffs = append(diffs, c.judge(got)...)
		}
		mu.Lock()
		defer mu.Unlock()
		res.Cases++
		res.Steps += 1 + len(c.Given)
		for _, d := range diffs {
			report(n, c, d)
		}
		if msg == "" && n%2 == 0 && head != nil {
			list := fmt.Sprint(c.Leaves)
			key := fmt.Sprintf("%d %x", len(c.Leaves), head)
			if other, ok := byHead[key]; ok && other != list {
				report(n, c, treeDiff{"H02", fmt.Sprintf("the lists %s and %s have the same head", list, other)})
			}
			byHead[key] = list
			if other, ok := byList[list]; ok && other != key {
				report(n, c, treeDiff{"H02", "the list " + list + " has two heads"})
			}
			byList[list] = key
		}
	})
	// no blocks, no tree
	msg := guard(5*time.Second, func() {
		for i, none := range [][][]byte{nil, {}} {
			if _, err := hashtrees.NewBuilder().Create().WithBlocks(none).Now(); err == nil {
				report(-1, TreeCase{}, treeDiff{"H02", fmt.Sprintf("a tree of no blocks was built (%d)", i)})
			}
		}
		if _, err := hashtrees.NewBuilder().Create().Now(); err == nil {
			report(-1, TreeCase{}, treeDiff{"H02", "a tree of nothing was built"})
		}
		// leaves that are no tree
		for _, n := range []int{1, 3, 5, 6, 7, 12} {
			list := []hashtrees.Leaf{}
			for i := 0; i < n; i++ {
				l, err := hashtrees.NewLeafBuilder().Create().WithHead(mustHash([]byte{byte(i)})).Now()
				if err != nil {
					fatal("leaf: %v", err)
				}
				list = append(list, l)
			}
			ls, err := hashtrees.NewLeavesBuilder().Create().WithList(list).Now()
			if err != nil {
				report(-1, TreeCase{}, treeDiff{"H02", "leaves: " + err.Error()})
				continue
			}
			if _, err := hashtrees.NewLeavesAdapter().ToHashTree(ls); err == nil {
				report(-1, TreeCase{}, treeDiff{"H02", fmt.Sprintf("a tree was made of %d leaves", n)})
			}
		}
	})
	if msg != "" {
		report(-1, TreeCase{}, treeDiff{"H02", "a tree of no blocks, or of leaves whose number is not a power of two: " + msg})
	}
	res.finish(f["out"])
}

// cmdTreeRandom records uses of large random trees.
func cmdTreeRandom(f map[string]string) {
	seed := int64(atoi(f["seed"], 1))
	runs := atoi(f["runs"], 100)
	out, err := os.Create(f["out"])
	if err != nil {
		fatal("%v", err)
	}
	res := &Result{}
	enc := json.NewEncoder(out)
	blocks := blockSet(newRand(seed, 4711), 40)
	half := len(blocks) - 1
	blocks = append(blocks, family(newRand(seed, 4712), half)[1:]...)
	headIDs := map[string]int{}
	var prev []int
	for n := 0; n < runs; n++ {
		rng := newRand(seed, n)
		size := 1 + rng.Intn(20)
		if n%7 == 0 {
			size = []int{31, 32, 33, 63, 64, 65, 100, 127, 128, 129}[rng.Intn(10)]
		}
		if n%31 == 0 {
			size = []int{254, 255, 256, 257, 258, 260, 264, 272, 288, 320, 384, 511, 512, 513, 514, 516, 520, 640}[(n/31)%18]
		}
		alphabet, from := 1+rng.Intn(half+1), 0
		if n%2 == 1 {
			from = half
		}
		c := TreeCase{Blocks: []int{}, Given: []int{}}
		if prev != nil && n%3 == 0 {
			// a relative of the list before: heads must tell them apart
			c.Blocks = append(c.Blocks, prev...)
			switch rng.Intn(3) {
			case 0:
				c.Blocks[rng.Intn(len(prev))] = from + rng.Intn(alphabet)
			case 1:
				i, j := rng.Intn(len(prev)), rng.Intn(len(prev))
				c.Blocks[i], c.Blocks[j] = c.Blocks[j], c.Blocks[i]
			default:
				c.Blocks = append(c.Blocks, 0)
			}
		} else {
			for i := 0; i < size; i++ {
				c.Blocks = append(c.Blocks, from+rng.Intn(alphabet))
			}
		}
		prev = c.Blocks
		c.Given = append(c.Given, c.Blocks...)
		rng.Shuffle(len(c.Given), func(i, j int) { c.Given[i], c.Given[j] = c.Given[j], c.Given[i] })
		switch rng.Intn(5) {
		case 0:
			c.Given = c.Given[:rng.Intn(len(c.Given)+1)]
		case 1:
			c.Given = append(c.Given, rng.Intn(len(blocks)))
		case 2:
			c.Given[rng.Intn(len(c.Given))] = c.Given[rng.Intn(len(c.Given))]
		}
		var got TreeCase
		var head []byte
		var diffs []treeDiff
		msg := guard(20*time.Second, func() { got, head, diffs = useTree(c, blocks) })
		if msg != "" {
			diffs = []treeDiff{{"*", msg}}
		}
		res.Cases++
		for _, d := range diffs {
			c.Seed, c.Case = seed, n
			res.add(Mismatch{Props: []string{d.prop}, Case: n, What: d.what, Replay: c})
		}
		if msg != "" || head == nil {
			continue
		}
		if _, ok := headIDs[string(head)]; !ok {
			headIDs[string(head)] = len(headIDs) + 1
		}
		got.Head = headIDs[string(head)]
		enc.Encode(got)
	}
	out.Close()
	res.finish(f["out"] + ".res")
}

// SizeCase is a state of MCHashTreeSizes.tla.
type SizeCase struct {
	N      int `json:"n"`
	Padded int `json:"padded"`
	Height int `json:"height"`
	Kind   int `json:"blocks"`
}

// useSize builds a tree of n blocks and looks at its shape.
func useSize(c SizeCase, blocks [][]byte) (diffs []treeDiff) {
	bad := func(prop, format string, args ...interface{}) {
		diffs = append(diffs, treeDiff{prop, fmt.Sprintf("%d blocks: ", c.N) + fmt.Sprintf(format, args...)})
	}
	adapter := hashtrees.NewAdapter()
	tree, err := hashtrees.NewBuilder().Create().WithBlocks(blocks).Now()
	if err != nil {
		bad("H02", "building: %v", err)
		return
	}
	if int(tree.Height()) != c.Height {
		bad("H02", "height: expected %d, got %d", c.Height, tree.Height())
	}
	compact, err := adapter.ToCompact(tree)
	if err != nil {
		bad("H02", "compact: %v", err)
		return
	}
	heads := leafHeads(compact.Leaves())
	if len(heads) != c.Padded || int(compact.Length()) != c.Padded {
		bad("H02", "leaves: expected %d, got %d (length %d)", c.Padded, len(heads), compact.Length())
		return
	}
	if p, err := adapter.ToLength(tree); err != nil || int(*p) != c.Padded {
		bad("H02", "length: expected %d, got another one (%v)", c.Padded, err)
	}
	for i := range heads {
		b := []byte{}
		if i < len(blocks) {
			b = blocks[i]
		}
		if !bytes.Equal(mustHash(b), heads[i]) {
			bad("H02", "leaf %d is not that of its block", i)
			return
		}
	}
	if !bytes.Equal(merkle(heads), tree.Head().Bytes()) {
		bad("H02", "the head is not the digest of the leaves")
	}
	enc, err := adapter.ToContent(tree)
	if err != nil {
		bad("H02", "encoding: %v", err)
		return
	}
	back, err := adapter.ToHashTree(enc)
	if err != nil {
		bad("H02", "decoding: %v", err)
		return
	}
	if bc, err := adapter.ToCompact(back); err != nil || !bytes.Equal(back.Head().Bytes(), tree.Head().Bytes()) || !sameHeads(leafHeads(bc.Leaves()), heads) {
		bad("H02", "the decoded tree differs (%v)", err)
	}
	cenc, err := hashtrees.NewCompactAdapter().ToContent(compact)
	if err == nil {
		cback, err := hashtrees.NewCompactAdapter().ToCompact(cenc)
		if err != nil || !sameHeads(leafHeads(cback.Leaves()), heads) || int(cback.Length()) != c.Padded {
			bad("H02", "the decoded compact form differs (%v)", err)
		}
	} else {
		bad("H02", "encoding the compact form: %v", err)
	}
	// backwards, and rotated by a half
	for k := 0; k < 2; k++ {
		given := make([][]byte, len(blocks))
		for i := range blocks {
			if k == 0 {
				given[len(blocks)-1-i] = blocks[i]
			} else {
				given[(i+len(blocks)/2)%len(blocks)] = blocks[i]
			}
		}
		for _, one := range []hashtrees.HashTree{tree, back} {
			out, err := adapter.ToOrder(one, given)
			if err != nil || len(out) != len(blocks) {
				bad("H01", "ordering: %d blocks (%v)", len(out), err)
				continue
			}
			for i := range out {
				if !bytes.Equal(out[i], blocks[i]) {
					bad("H01", "ordering: block %d is another one", i)
					break
				}
			}
		}
	}
	if c.N > 1 {
		if _, err := adapter.ToOrder(tree, append(append([][]byte{}, blocks...), []byte("a stranger"))); err == nil {
			bad("H01", "ordering a block the tree does not have is not refused")
		}
	}
	return
}

// cmdTreeSizes runs the states of MCHashTreeSizes.tla.
func cmdTreeSizes(f map[string]string) {
	seed := int64(atoi(f["seed"], 1))
	res := &Result{}
	var mu sync.Mutex
	runPool(f["in"], func(n int, line []byte) {
		var c SizeCase
		if err := json.Unmarshal(line, &c); err != nil {
			fatal("case %d: %v", n, err)
		}
		rng := newRand(seed, n)
		for kind := 0; kind < 3; kind++ {
			c.Kind = kind
			blocks := make([][]byte, c.N)
			for i := range blocks {
				switch kind {
				case 0: // all different
					blocks[i] = []byte(fmt.Sprintf("block %d", i))
				case 1: // few different ones
					blocks[i] = []byte(fmt.Sprintf("block %d", rng.Intn(3)))
				case 2: // digests that differ in two bytes only
					blocks[i] = make([]byte, 64)
					blocks[i][31], blocks[i][63] = byte(i), byte(i>>8)
				}
			}
			var diffs []treeDiff
			msg := guard(60*time.Second, func() { diffs = useSize(c, blocks) })
			if msg != "" {
				diffs = []treeDiff{{"*", msg}}
				if msg[0] == 'h' {
					hung()
				}
			}
			mu.Lock()
			res.Cases++
			res.Steps += c.N
			for _, d := range diffs {
				res.add(Mismatch{Props: []string{d.prop}, Case: n, What: d.what, Replay: c})
			}
			mu.Unlock()
		}
	})
	res.finish(f["out"])
}

func init() {
	commands["tree-sizes"] = cmdTreeSizes
	commands["tree-replay"] = cmdTreeReplay
	commands["tree-random"] = cmdTreeRandom
}
