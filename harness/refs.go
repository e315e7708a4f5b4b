package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"path/filepath"
	"sync"
	"time"

	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hash"
	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hashtrees"
	"github.com/steve-care-software/rodkina/libs/databases/domain/contents"
	"github.com/steve-care-software/rodkina/libs/databases/domain/references"
	"github.com/steve-care-software/rodkina/libs/databases/infrastructure/files"
)

// RefCase is a value of MCReference.tla with its answers.
type RefCase struct {
	What string `json:"what"`
	Keys []struct {
		H    int `json:"h"`
		K    int `json:"k"`
		From int `json:"from"`
		Len  int `json:"len"`
		C    int `json:"c"`
	} `json:"keys"`
	Commits []struct {
		Values []int `json:"values"`
		T      int   `json:"t"`
		Parent int   `json:"parent"`
		Proof  int   `json:"proof"`
	} `json:"commits"`
	Next    int      `json:"next"`
	Fetch   []int    `json:"fetch"`
	Kinds   [][]int  `json:"kinds"`
	Latest  int      `json:"latest"`
	Same    []int    `json:"same"`
	Cut     []string `json:"cut"`
	Damaged []string `json:"damaged"`
	Conts   []struct {
		H int `json:"h"`
		K int `json:"k"`
		D int `json:"d"`
	} `json:"conts"`
	Builder string   `json:"builder"`
	Given   []string `json:"given"`
	Bad     []string `json:"bad"`
	OK      bool     `json:"ok"`
	Seed    int64    `json:"seed,omitempty"`
	Case    int      `json:"caseno,omitempty"`
}

type refWorld struct {
	rng    *rand.Rand
	mining byte
	unit   uint
	kinds  []uint
	hashes []hash.Hash
	values map[int][]byte
	times  []time.Time
	proofs map[int]*big.Int
	datas  [][]byte
	mine   bool
	diffs  []treeDiff
}

func newRefWorld(rng *rand.Rand) *refWorld {
	w := &refWorld{rng: rng, mining: byte(rng.Intn(256)), proofs: map[int]*big.Int{}, values: map[int][]byte{}}
	if rng.Intn(3) == 0 {
		w.mining = []byte{0, '0', 255}[rng.Intn(3)]
	}
	w.unit = []uint{1, 7, 255, 256, 1000, 65536, 1 << 31, 1 << 40, 1 << 53}[rng.Intn(9)]
	w.kinds = append([]uint{}, kindFamilies[rng.Intn(len(kindFamilies))]...)
	w.kinds = append(w.kinds, 12345678901, 999)
	common := make([]byte, hash.Size)
	switch rng.Intn(4) {
	case 0: // null bytes
	case 1:
		for i := range common {
			common[i] = 0xff
		}
	default:
		rng.Read(common)
	}
	differs := -1
	if rng.Intn(3) == 0 {
		differs = []int{0, 1, 7, 8, 31, 32, 62, 63}[rng.Intn(8)]
	}
	for i := 0; i < 100; i++ {
		raw := append([]byte{}, common...)
		if differs >= 0 {
			raw[differs] = common[differs] + byte(i-1)
		} else {
			rng.Read(raw)
			raw[0] = byte(i)
		}
		w.hashes = append(w.hashes, mustHash(raw))
	}
	for i := 0; i < len(w.hashes); i++ {
		w.values[i] = []byte(w.hashes[i].Bytes())
	}
	base := []int64{time.Now().UnixNano(), 0, -1, -86400 * 1e9 * 3650, 1, 999999999, 1e9, 4102444800 * 1e9, 1<<62 + 12345}
	for i := 0; i < 8; i++ {
		t := time.Unix(0, base[rng.Intn(len(base))]+int64(i)*int64([]int{1, 1000, 1e9 + 7}[rng.Intn(3)]))
		switch rng.Intn(3) {
		case 0:
			t = t.UTC()
		case 1:
			t = t.In(time.FixedZone("x", 3600*(rng.Intn(20)-10)+1800))
		}
		w.times = append(w.times, t)
	}
	// the times of one case must differ
	for i := range w.times {
		for j := 0; j < i; j++ {
			if w.times[i].Equal(w.times[j]) {
				w.times[i] = w.times[i].Add(time.Duration(i * 3))
				j = -1
			}
		}
	}
	w.mine = rng.Intn(6) == 0
	sizes := []int{1, 1, 2, 7, 8, 9, 63, 64, 65, 200, 1000}
	for i := 0; i < 10; i++ {
		b := make([]byte, sizes[rng.Intn(len(sizes))])
		if rng.Intn(2) == 0 {
			rng.Read(b)
		}
		b = append(b, byte(i))
		w.datas = append(w.datas, b)
	}
	return w
}

func (w *refWorld) bad(prop, format string, args ...interface{}) {
	w.diffs = append(w.diffs, treeDiff{prop, fmt.Sprintf(format, args...)})
}

// proof gives the number a proof identity stands for; some are mined until they score.
func (w *refWorld) proof(id int, try func(*big.Int) uint) *big.Int {
	if id == 1 {
		return big.NewInt(0)
	}
	if p, ok := w.proofs[id]; ok {
		return p
	}
	var p *big.Int
	if w.mine {
		w.mine = false
		for i := 0; i < 3000; i++ {
			p = big.NewInt(int64(id)<<40 + int64(i))
			if try(p) > 0 {
				break
			}
		}
	} else {
		b := make([]byte, []int{1, 2, 8, 9, 64, 100, 254, 255, 256, 300, 1000, 70000}[w.rng.Intn(12)])
		w.rng.Read(b)
		p = new(big.Int).SetBytes(b)
		p.Lsh(p, 8)
		p.Add(p, big.NewInt(int64(id)))
	}
	w.proofs[id] = p
	return p
}

func (w *refWorld) tree(values []int) hashtrees.HashTree {
	blocks := [][]byte{}
	for _, id := range values {
		blocks = append(blocks, w.values[id])
	}
	t, err := hashtrees.NewBuilder().Create().WithBlocks(blocks).Now()
	if err != nil {
		w.bad("H02", "values tree: %v", err)
		return nil
	}
	return t
}

// build makes the reference of a case.
func (w *refWorld) build(c RefCase) (references.Reference, references.Commits, references.ContentKeys) {
	keys := []references.ContentKey{}
	for _, k := range c.Keys {
		p, err := references.NewPointerBuilder().Create().From(uint(k.From) * w.unit).WithLength(uint(k.Len) * w.unit).Now()
		if err != nil {
			w.bad("K01", "pointer: %v", err)
			return nil, nil, nil
		}
		key, err := references.NewContentKeyBuilder().Create().WithHash(w.hashes[k.H]).WithKind(w.kinds[k.K-1]).WithContent(p).WithCommit(w.hashes[k.C+5]).Now()
		if err != nil {
			w.bad("K01", "content key: %v", err)
			return nil, nil, nil
		}
		keys = append(keys, key)
	}
	list := []references.Commit{}
	for _, one := range c.Commits {
		tree := w.tree(one.Values)
		if tree == nil {
			return nil, nil, nil
		}
		mk := func(p *big.Int) (references.Commit, error) {
			b := references.NewCommitBuilder(w.mining).Create().WithValues(tree).CreatedOn(w.times[one.T])
			if one.Parent != 0 {
				b.WithParent(w.hashes[one.Parent])
			}
			if p != nil {
				b.WithProof(p)
			}
			return b.Now()
		}
		var p *big.Int
		if one.Proof != 0 {
			p = w.proof(one.Proof, func(q *big.Int) uint {
				x, err := mk(q)
				if err != nil || !x.HasMine() {
					return 1
				}
				return x.Mine().Score()
			})
		}
		commit, err := mk(p)
		if err != nil {
			w.bad("K01", "commit: %v", err)
			return nil, nil, nil
		}
		list = append(list, commit)
	}
	ck, err := references.NewContentKeysBuilder().Create().WithList(keys).Now()
	if err != nil {
		w.bad("K01", "content keys: %v", err)
		return nil, nil, nil
	}
	cs, err := references.NewCommitsBuilder().Create().WithList(list).Now()
	if err != nil {
		w.bad("K01", "commits: %v", err)
		return nil, nil, nil
	}
	ref, err := references.NewBuilder().Create().WithContentKeys(ck).WithCommits(cs).Now()
	if err != nil {
		w.bad("K01", "reference: %v", err)
		return nil, nil, nil
	}
	return ref, cs, ck
}

func (w *refWorld) checkKeys(c RefCase, ck references.ContentKeys, where string) {
	list := ck.List()
	if len(list) != len(c.Keys) {
		w.bad("K01", "%s: %d content keys instead of %d", where, len(list), len(c.Keys))
		return
	}
	same := func(i int, one references.ContentKey) string {
		k := c.Keys[i]
		switch {
		case !bytes.Equal(one.Hash(), w.hashes[k.H]):
			return "hash"
		case one.Kind() != w.kinds[k.K-1]:
			return "kind"
		case one.Content().From() != uint(k.From)*w.unit:
			return "start"
		case one.Content().Length() != uint(k.Len)*w.unit:
			return "length"
		case !bytes.Equal(one.Commit(), w.hashes[k.C+5]):
			return "commit"
		}
		return ""
	}
	for i, one := range list {
		if d := same(i, one); d != "" {
			w.bad("K01", "%s: content key %d has another %s", where, i, d)
		}
	}
	if ck.Next() != int64(uint(c.Next)*w.unit) {
		w.bad("K01", "%s: next free offset %d instead of %d", where, ck.Next(), uint(c.Next)*w.unit)
	}
	for h1, idx := range c.Fetch {
		one, err := ck.Fetch(w.hashes[h1+1])
		if (err == nil) != (idx != 0) {
			w.bad("K01", "%s: fetching hash %d: %v", where, h1+1, err)
			continue
		}
		if idx != 0 {
			if d := same(idx-1, one); d != "" {
				w.bad("K01", "%s: fetching hash %d gives a key with another %s than key %d", where, h1+1, d, idx)
			}
		}
	}
	for k1, idxs := range c.Kinds {
		got := ck.ListByKind(w.kinds[k1])
		if len(got) != len(idxs) {
			w.bad("K01", "%s: kind %d lists %d keys instead of %d", where, k1+1, len(got), len(idxs))
			continue
		}
		for i, idx := range idxs {
			if d := same(idx-1, got[i]); d != "" {
				w.bad("K01", "%s: kind %d, key %d has another %s", where, k1+1, i, d)
			}
		}
	}
}

func sameCommit(a, b references.Commit) string {
	switch {
	case !bytes.Equal(a.Hash(), b.Hash()):
		return "hash"
	case !bytes.Equal(a.Values().Head(), b.Values().Head()):
		return "values head"
	case !a.CreatedOn().Equal(b.CreatedOn()):
		return "creation time"
	case a.HasParent() != b.HasParent():
		return "parent presence"
	case a.HasParent() && !bytes.Equal(*a.Parent(), *b.Parent()):
		return "parent"
	case a.HasMine() != b.HasMine():
		return "mine presence"
	case a.HasMine() && a.Mine().Proof().Cmp(b.Mine().Proof()) != 0:
		return "proof"
	case a.HasMine() && a.Mine().Score() != b.Mine().Score():
		return "score"
	case a.HasMine() && !bytes.Equal(a.Mine().Result(), b.Mine().Result()):
		return "mining result"
	}
	ca, err1 := treeAdapter.ToCompact(a.Values())
	cb, err2 := treeAdapter.ToCompact(b.Values())
	if err1 != nil || err2 != nil || !sameHeads(leafHeads(ca.Leaves()), leafHeads(cb.Leaves())) {
		return "values"
	}
	return ""
}

func (w *refWorld) checkCommit(c RefCase, i int, one references.Commit, where string) {
	e := c.Commits[i]
	if one.HasParent() != (e.Parent != 0) || (e.Parent != 0 && !bytes.Equal(*one.Parent(), w.hashes[e.Parent])) {
		w.bad("K01", "%s: commit %d has another parent", where, i)
	}
	if !one.CreatedOn().Equal(w.times[e.T]) {
		w.bad("K01", "%s: commit %d was created on %v instead of %v", where, i, one.CreatedOn(), w.times[e.T])
	}
	compact, err := treeAdapter.ToCompact(one.Values())
	if err != nil {
		w.bad("K01", "%s: commit %d: values: %v", where, i, err)
	} else {
		for j, l := range leafHeads(compact.Leaves()) {
			if j < len(e.Values) && !bytes.Equal(l, w.values[e.Values[j]]) {
				w.bad("K01", "%s: commit %d has another value at %d", where, i, j)
			}
		}
	}
	if one.HasMine() != (e.Proof != 0) {
		w.bad("K01", "%s: commit %d: mine %v", where, i, one.HasMine())
	} else if e.Proof != 0 {
		p := w.proof(e.Proof, nil)
		if one.Mine().Proof().Cmp(p) != 0 {
			w.bad("K01", "%s: commit %d has the proof %v instead of %v", where, i, one.Mine().Proof(), p)
		}
		score := uint(0)
		for _, b := range one.Mine().Result().Bytes() {
			if b != w.mining {
				break
			}
			score++
		}
		if one.Mine().Score() != score {
			w.bad("K01", "%s: commit %d scores %d, its result says %d", where, i, one.Mine().Score(), score)
		}
	}
}

func (w *refWorld) checkCommits(c RefCase, cs references.Commits, orig references.Commits, where string) {
	list := cs.List()
	if len(list) != len(c.Commits) {
		w.bad("K01", "%s: %d commits instead of %d", where, len(list), len(c.Commits))
		return
	}
	for i, one := range list {
		w.checkCommit(c, i, one, where)
		if d := sameCommit(one, orig.List()[i]); d != "" {
			w.bad("K01", "%s: commit %d has another %s than the original", where, i, d)
		}
		back, err := cs.Fetch(one.Hash())
		if err != nil {
			w.bad("K01", "%s: fetching commit %d: %v", where, i, err)
		} else if d := sameCommit(back, list[c.Same[i]-1]); d != "" {
			w.bad("K01", "%s: fetching commit %d by hash gives another %s", where, i, d)
		}
		for j := 0; j < i; j++ {
			if bytes.Equal(one.Hash(), list[j].Hash()) != (c.Same[i] == c.Same[j]) {
				w.bad("K01", "%s: commits %d and %d: identity and content disagree", where, i, j)
			}
		}
	}
	if _, err := cs.Fetch(mustHash([]byte("no commit"))); err == nil {
		w.bad("K01", "%s: fetching an unknown commit succeeds", where)
	}
	if d := sameCommit(cs.Latest(), list[c.Latest-1]); d != "" {
		w.bad("K01", "%s: the latest commit has another %s", where, d)
	}
}

// try runs a decoder on damaged bytes: "value", "error" or what went wrong.
func try(f func() error) (out string) {
	defer func() {
		if r := recover(); r != nil {
			out = fmt.Sprintf("panic: %v", r)
		}
	}()
	if err := f(); err != nil {
		return "error"
	}
	return "value"
}

func among(x string, list []string) bool {
	for _, one := range list {
		if one == x {
			return true
		}
	}
	return false
}

// damage decodes cut and overwritten variants of an encoding.
func (w *refWorld) damage(what string, enc []byte, cutOK, damagedOK []string, cuts int, decode func([]byte) error) int {
	n := 0
	check := func(kind string, b []byte, allowed []string) {
		n++
		// without a spare byte behind it, and then inside of a longer buffer: what lies behind it is not part of it
		keep := make([]byte, len(b))
		copy(keep, b)
		got := try(func() error { return decode(keep) })
		if !among(got, allowed) {
			w.bad("K02", "decoding a %s: %s: got %s, allowed %v (%x...)", what, kind, got, allowed, head(b, 24))
		}
		if !bytes.Equal(keep, b) {
			w.bad("K02", "decoding a %s: %s: the bytes given were changed", what, kind)
		}
		if n%3 == 0 {
			longer := make([]byte, len(b)+200)
			copy(longer, b)
			w.rng.Read(longer[len(b):])
			if again := try(func() error { return decode(longer[:len(b)]) }); again != got {
				w.bad("K02", "decoding a %s: %s: got %s, but %s when other bytes follow in memory (%x...)", what, kind, got, again, head(b, 24))
			}
		}
	}
	step := 1
	// at most some 20 MB are decoded for the cuts of one encoding
	if most := 20000000/(len(enc)+1) + 1; cuts > most {
		cuts = most
	}
	if cuts > 0 && len(enc) > cuts {
		step = len(enc)/cuts + 1
	}
	for i := w.rng.Intn(step); i < len(enc); i += step {
		check(fmt.Sprintf("first %d of %d bytes", i, len(enc)), append([]byte{}, enc[:i]...), cutOK)
	}
	specials := []uint64{0, 1, 7, 8, 63, 64, 1 << 31, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 1, 1<<64 - 8}
	for i := 0; i+8 <= len(enc); i++ {
		if i > 24 && step > 1 && w.rng.Intn(step) != 0 {
			continue
		}
		b := append([]byte{}, enc...)
		v := binary.LittleEndian.Uint64(b[i:])
		x := specials[w.rng.Intn(len(specials))]
		switch w.rng.Intn(4) {
		case 0:
			x = v + uint64(w.rng.Intn(130)) - 65
		case 1:
			x = v ^ (1 << uint(w.rng.Intn(64)))
		}
		binary.LittleEndian.PutUint64(b[i:], x)
		check(fmt.Sprintf("8 bytes at %d set to %d", i, x), b, damagedOK)
	}
	for i := 0; i < 8; i++ {
		b := append([]byte{}, enc...)
		for j := 0; j <= w.rng.Intn(4); j++ {
			b[w.rng.Intn(len(b))] = byte(w.rng.Intn(256))
		}
		check("random bytes overwritten", b, damagedOK)
		tail := make([]byte, 1+w.rng.Intn(100))
		w.rng.Read(tail)
		check("random bytes behind it", append(append([]byte{}, enc...), tail...), damagedOK)
		check("random bytes only", append(tail, tail...), damagedOK)
	}
	return n
}

func head(b []byte, n int) []byte {
	if len(b) > n {
		return b[:n]
	}
	return b
}

func runRefCase(c RefCase, rng *rand.Rand, damage int) ([]treeDiff, int) {
	w := newRefWorld(rng)
	steps := 1
	switch c.What {
	case "reference":
		ref, cs, ck := w.build(c)
		if ref == nil {
			break
		}
		w.checkKeys(c, ref.ContentKeys(), "built")
		w.checkCommits(c, ref.Commits(), cs, "built")
		adapter := references.NewAdapter(w.mining)
		enc, err := adapter.ToContent(ref)
		if err != nil {
			w.bad("K01", "encoding: %v", err)
			break
		}
		back, err := adapter.ToReference(append([]byte{}, enc...))
		if err != nil {
			w.bad("K01", "decoding: %v", err)
			break
		}
		w.checkKeys(c, back.ContentKeys(), "decoded")
		w.checkCommits(c, back.Commits(), cs, "decoded")
		if enc2, err := adapter.ToContent(back); err != nil || !bytes.Equal(enc, enc2) {
			w.bad("K01", "the decoded reference encodes differently (%v)", err)
		}
		// the parts on their own
		keysAdapter := references.NewContentKeysAdapter()
		commitsAdapter := references.NewCommitsAdapter(w.mining)
		commitAdapter := references.NewCommitAdapter(w.mining)
		keyAdapter := references.NewContentKeyAdapter()
		pointerAdapter := references.NewPointerAdapter()
		kenc, err := keysAdapter.ToContent(ck)
		if err != nil {
			w.bad("K01", "encoding keys: %v", err)
		} else if kback, err := keysAdapter.ToContentKeys(kenc); err != nil {
			w.bad("K01", "decoding keys: %v", err)
		} else {
			w.checkKeys(c, kback, "decoded keys")
		}
		cenc, err := commitsAdapter.ToContent(cs)
		if err != nil {
			w.bad("K01", "encoding commits: %v", err)
		} else if cback, err := commitsAdapter.ToCommits(cenc); err != nil {
			w.bad("K01", "decoding commits: %v", err)
		} else {
			w.checkCommits(c, cback, cs, "decoded commits")
		}
		var onec, onek, onep []byte
		for i, one := range cs.List() {
			e, err := commitAdapter.ToContent(one)
			if err != nil {
				w.bad("K01", "encoding commit %d: %v", i, err)
				continue
			}
			b, err := commitAdapter.ToCommit(e)
			if err != nil {
				w.bad("K01", "decoding commit %d: %v", i, err)
				continue
			}
			if d := sameCommit(one, b); d != "" {
				w.bad("K01", "decoded commit %d has another %s", i, d)
			}
			onec = e
		}
		for i, one := range ck.List() {
			e, err := keyAdapter.ToContent(one)
			if err != nil {
				w.bad("K01", "encoding key %d: %v", i, err)
				continue
			}
			b, err := keyAdapter.ToContentKey(e)
			if err != nil || !bytes.Equal(b.Hash(), one.Hash()) || b.Kind() != one.Kind() || b.Content().From() != one.Content().From() ||
				b.Content().Length() != one.Content().Length() || !bytes.Equal(b.Commit(), one.Commit()) {
				w.bad("K01", "decoded key %d differs (%v)", i, err)
			}
			onek = e
			pe, err := pointerAdapter.ToContent(one.Content())
			if err != nil {
				w.bad("K01", "encoding pointer %d: %v", i, err)
				continue
			}
			if p, err := pointerAdapter.ToPointer(pe); err != nil || p.From() != one.Content().From() || p.Length() != one.Content().Length() {
				w.bad("K01", "decoded pointer %d differs (%v)", i, err)
			}
			onep = pe
		}
		if damage > 0 {
			steps += w.damage("reference", enc, c.Cut, c.Damaged, damage, func(b []byte) error { _, err := adapter.ToReference(b); return err })
			steps += w.damage("list of content keys", kenc, c.Damaged, c.Damaged, damage, func(b []byte) error { _, err := keysAdapter.ToContentKeys(b); return err })
			steps += w.damage("list of commits", cenc, c.Damaged, c.Damaged, damage, func(b []byte) error { _, err := commitsAdapter.ToCommits(b); return err })
			if onec != nil && onek != nil && onep != nil {
				steps += w.damage("commit", onec, c.Damaged, c.Damaged, damage, func(b []byte) error { _, err := commitAdapter.ToCommit(b); return err })
				steps += w.damage("content key", onek, c.Cut, c.Damaged, damage, func(b []byte) error { _, err := keyAdapter.ToContentKey(b); return err })
				steps += w.damage("pointer", onep, c.Cut, c.Damaged, damage, func(b []byte) error { _, err := pointerAdapter.ToPointer(b); return err })
			}
			tree := cs.List()[0].Values()
			if tenc, err := treeAdapter.ToContent(tree); err == nil {
				steps += w.damage("hash tree", tenc, c.Damaged, c.Damaged, damage, func(b []byte) error { _, err := treeAdapter.ToHashTree(b); return err })
			}
			if compact, err := treeAdapter.ToCompact(tree); err == nil {
				if tenc, err := hashtrees.NewCompactAdapter().ToContent(compact); err == nil {
					steps += w.damage("compact hash tree", tenc, c.Cut, c.Damaged, damage, func(b []byte) error {
						_, err := hashtrees.NewCompactAdapter().ToCompact(b)
						return err
					})
				}
			}
		}
	case "contents":
		list := []contents.Content{}
		for _, one := range c.Conts {
			x, err := contents.NewContentBuilder().Create().WithHash(w.hashes[one.H]).WithKind(w.kinds[one.K-1]).WithData(append([]byte{}, w.datas[one.D]...)).Now()
			if err != nil {
				w.bad("K01", "content: %v", err)
				return w.diffs, steps
			}
			list = append(list, x)
		}
		ins, err := contents.NewBuilder().Create().WithList(list).Now()
		if err != nil {
			w.bad("K01", "contents: %v", err)
			break
		}
		same := func(i int, x contents.Content) bool {
			one := c.Conts[i]
			return bytes.Equal(x.Hash(), w.hashes[one.H]) && x.Kind() == w.kinds[one.K-1] && bytes.Equal(x.Data(), w.datas[one.D])
		}
		adapter := contents.NewAdapter()
		enc, err := adapter.ToContent(ins)
		if err != nil {
			w.bad("K01", "encoding contents: %v", err)
			break
		}
		back, err := adapter.ToInstance(append([]byte{}, enc...))
		if err != nil {
			w.bad("K01", "decoding contents: %v", err)
			break
		}
		for where, cl := range map[string][]contents.Content{"built": ins.List(), "decoded": back.List()} {
			if len(cl) != len(c.Conts) {
				w.bad("K01", "%s: %d contents instead of %d", where, len(cl), len(c.Conts))
				continue
			}
			for i, x := range cl {
				if !same(i, x) {
					w.bad("K01", "%s: content %d differs", where, i)
				}
			}
		}
		var last []byte
		for i, x := range list {
			e, err := contents.NewContentAdapter().ToContent(x)
			if err != nil {
				w.bad("K01", "encoding content %d: %v", i, err)
				continue
			}
			b, err := contents.NewContentAdapter().ToInstance(e)
			if err != nil || !same(i, b) {
				w.bad("K01", "decoded content %d differs (%v)", i, err)
			}
			last = e
		}
		if damage > 0 && last != nil {
			steps += w.damage("list of contents", enc, c.Cut, c.Damaged, damage, func(b []byte) error { _, err := adapter.ToInstance(b); return err })
			steps += w.damage("content", last, c.Cut, c.Damaged, damage, func(b []byte) error { _, err := contents.NewContentAdapter().ToInstance(b); return err })
		}
	case "builder":
		w.builder(c)
	}
	return w.diffs, steps
}

func (w *refWorld) builder(c RefCase) {
	given := func(f string) bool { return among(f, c.Given) }
	bad := func(f string) bool { return among(f, c.Bad) }
	h := w.hashes[1]
	kind := w.kinds[w.rng.Intn(3)]
	pointer, _ := references.NewPointerBuilder().Create().From(0).WithLength(3).Now()
	key, _ := references.NewContentKeyBuilder().Create().WithHash(h).WithKind(kind).WithContent(pointer).WithCommit(h).Now()
	tree := w.tree([]int{1, 2})
	commit, _ := references.NewCommitBuilder(w.mining).Create().WithValues(tree).CreatedOn(w.times[0]).Now()
	keys, _ := references.NewContentKeysBuilder().Create().WithList([]references.ContentKey{key}).Now()
	commits, _ := references.NewCommitsBuilder().Create().WithList([]references.Commit{commit}).Now()
	content, _ := contents.NewContentBuilder().Create().WithHash(h).WithKind(kind).WithData([]byte{0}).Now()
	if pointer == nil || key == nil || tree == nil || commit == nil || keys == nil || commits == nil || content == nil {
		w.bad("K01", "a complete value cannot be built")
		return
	}
	var err error
	var ins interface{}
	switch c.Builder {
	case "pointer":
		b := references.NewPointerBuilder().Create()
		if given("from") {
			b = b.From(uint(w.rng.Intn(2)) * 5)
		}
		if given("length") {
			if bad("length") {
				b = b.WithLength(0)
			} else {
				b = b.WithLength(uint(1 + w.rng.Intn(3)))
			}
		}
		ins, err = b.Now()
	case "contentkey":
		b := references.NewContentKeyBuilder().Create()
		if given("hash") {
			b = b.WithHash(h)
		}
		if given("kind") {
			b = b.WithKind(kind)
		}
		if given("content") {
			b = b.WithContent(pointer)
		}
		if given("commit") {
			b = b.WithCommit(h)
		}
		ins, err = b.Now()
	case "commit":
		b := references.NewCommitBuilder(w.mining).Create()
		if given("values") {
			b = b.WithValues(tree)
		}
		if given("created") {
			b = b.CreatedOn(w.times[w.rng.Intn(len(w.times))])
		}
		if given("parent") {
			b = b.WithParent(h)
		}
		if given("proof") {
			if bad("proof") {
				b = b.WithProof(big.NewInt(-1 - int64(w.rng.Intn(1000))))
			} else {
				b = b.WithProof(big.NewInt(int64(w.rng.Intn(1000))))
			}
		}
		ins, err = b.Now()
	case "commits":
		b := references.NewCommitsBuilder().Create()
		if given("list") {
			if bad("list") {
				b = b.WithList([]references.Commit{})
			} else {
				b = b.WithList([]references.Commit{commit})
			}
		}
		ins, err = b.Now()
	case "contentkeys":
		b := references.NewContentKeysBuilder().Create()
		if given("list") {
			if bad("list") {
				b = b.WithList([]references.ContentKey{})
			} else {
				b = b.WithList([]references.ContentKey{key})
			}
		}
		ins, err = b.Now()
	case "reference":
		b := references.NewBuilder().Create()
		if given("contentkeys") {
			b = b.WithContentKeys(keys)
		}
		if given("commits") {
			b = b.WithCommits(commits)
		}
		ins, err = b.Now()
	case "content":
		b := contents.NewContentBuilder().Create()
		if given("hash") {
			b = b.WithHash(h)
		}
		if given("kind") {
			b = b.WithKind(kind)
		}
		if given("data") {
			if bad("data") {
				b = b.WithData([]byte{})
			} else {
				b = b.WithData([]byte{byte(w.rng.Intn(2))})
			}
		}
		ins, err = b.Now()
	case "contents":
		b := contents.NewBuilder().Create()
		if given("list") {
			if bad("list") {
				b = b.WithList([]contents.Content{})
			} else {
				b = b.WithList([]contents.Content{content})
			}
		}
		ins, err = b.Now()
	default:
		fatal("unknown builder %s", c.Builder)
	}
	if (err == nil) != c.OK {
		w.bad("K01", "building a %s of %v (senseless: %v): error %v, value %v", c.Builder, c.Given, c.Bad, err, ins)
	}
}

// cmdRefReplay runs the values of MCReference.tla.
func cmdRefReplay(f map[string]string) {
	seed := int64(atoi(f["seed"], 1))
	cuts := atoi(f["cuts"], 0)
	every := atoi(f["every"], 1)
	res := &Result{}
	var mu sync.Mutex
	runPool(f["in"], func(n int, line []byte) {
		var c RefCase
		if err := json.Unmarshal(line, &c); err != nil {
			fatal("case %d: %v", n, err)
		}
		damage := 0
		if cuts > 0 && n%every == 0 {
			damage = cuts
		}
		var diffs []treeDiff
		steps := 0
		msg := guard(120*time.Second, func() { diffs, steps = runRefCase(c, newRand(seed, n), damage) })
		if msg != "" {
			diffs = []treeDiff{{"*", msg}}
			if msg[0] == 'h' {
				hung()
			}
		}
		mu.Lock()
		defer mu.Unlock()
		res.Cases++
		res.Steps += steps
		for _, d := range diffs {
			c.Seed, c.Case = seed, n
			res.add(Mismatch{Props: []string{d.prop}, Case: n, What: d.what, Replay: c})
		}
	})
	res.finish(f["out"])
}

// cmdRefFiles opens damaged database files.
func cmdRefFiles(f map[string]string) {
	seed := int64(atoi(f["seed"], 1))
	rounds := atoi(f["rounds"], 3)
	res := &Result{}
	for n := 0; n < rounds; n++ {
		rng := newRand(seed, n)
		root, err := os.MkdirTemp(scratchRoot(), "ref")
		if err != nil {
			fatal("%v", err)
		}
		bad := func(format string, args ...interface{}) {
			res.add(Mismatch{Props: []string{"K02"}, Case: n, What: fmt.Sprintf(format, args...), Replay: map[string]interface{}{"seed": seed, "round": n}})
		}
		chunk := []uint{1, 7, 64, 100, 1000, 100000}[rng.Intn(6)]
		app := files.NewApplication(0, root, "dst", "bck", chunk)
		data := [][]byte{}
		hashes := []hash.Hash{}
		msg := guard(20*time.Second, func() {
			for _, name := range []string{"db", "other"} {
				if err := app.New(name); err != nil {
					panic(err)
				}
			}
			p, err := app.Open("db")
			if err != nil {
				panic(err)
			}
			for i := 0; i < 1+n%4; i++ {
				d := make([]byte, 1+rng.Intn(40))
				rng.Read(d)
				data = append(data, d)
				hashes = append(hashes, mustHash([]byte(fmt.Sprintf("content %d", i))))
				if err := app.Write(*p, hashes[i], d, uint(i)); err != nil {
					panic(err)
				}
				if i%2 == 1 || i == n%4 {
					if err := app.Commit(*p); err != nil {
						panic(err)
					}
				}
			}
			if err := app.Close(*p); err != nil {
				panic(err)
			}
		})
		if msg != "" {
			bad("building a database: %s", msg)
			continue
		}
		path := filepath.Join(root, "db")
		whole, err := os.ReadFile(path)
		if err != nil {
			fatal("%v", err)
		}
		total := 0
		for _, d := range data {
			total += len(d)
		}
		refEnd := len(whole) - total
		probe := func(kind string, content []byte, mustRefuse bool, intact bool) {
			res.Cases++
			if err := os.WriteFile(path, content, 0644); err != nil {
				fatal("%v", err)
			}
			msg := guard(20*time.Second, func() {
				p, err := app.Open("db")
				if err != nil {
					return
				}
				defer app.Close(*p)
				if mustRefuse {
					bad("%s: opened", kind)
					return
				}
				for i, h := range hashes {
					got, err := app.ReadByHash(*p, h)
					if err == nil && intact && !bytes.Equal(got, data[i]) {
						bad("%s: content %d read as something else", kind, i)
					}
				}
			})
			if msg != "" {
				bad("%s: %s", kind, msg)
				if msg[0] == 'h' {
					hung()
				}
				app = files.NewApplication(0, root, "dst", "bck", chunk)
			}
			// the application goes on working
			p, err := app.Open("other")
			if err != nil {
				bad("%s: another database cannot be opened: %v", kind, err)
				app = files.NewApplication(0, root, "dst", "bck", chunk)
				return
			}
			if err := app.Close(*p); err != nil {
				bad("%s: another database cannot be closed: %v", kind, err)
			}
		}
		for i := 0; i < len(whole); i++ {
			// a file without a byte is a database without commits; a cut inside the data area leaves the reference whole
			probe(fmt.Sprintf("the first %d of %d bytes (the reference ends at %d)", i, len(whole), refEnd), whole[:i], i > 0 && i < refEnd, true)
		}
		for i := 0; i+8 <= refEnd; i++ {
			if i > 32 && rng.Intn(4) != 0 {
				continue
			}
			for _, x := range []uint64{0, 1, 64, 1 << 31, 1<<63 - 1, 1 << 63, 1<<64 - 1, binary.LittleEndian.Uint64(whole[i:]) - 1, binary.LittleEndian.Uint64(whole[i:]) + 1} {
				if i > 0 && x != 1<<63-1 && rng.Intn(3) != 0 {
					continue
				}
				b := append([]byte{}, whole...)
				binary.LittleEndian.PutUint64(b[i:], x)
				probe(fmt.Sprintf("8 bytes at %d set to %d", i, x), b, false, false)
			}
		}
		for i := 0; i < 30; i++ {
			b := make([]byte, 1+rng.Intn(600))
			rng.Read(b)
			if rng.Intn(2) == 0 {
				for j := 1; j < 8 && j < len(b); j++ {
					b[j] = 0
				}
			}
			probe("a file of random bytes", b, false, false)
		}
		os.RemoveAll(root)
	}
	res.finish(f["out"])
}

func init() {
	commands["ref-replay"] = cmdRefReplay
	commands["ref-files"] = cmdRefFiles
}
