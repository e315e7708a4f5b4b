package main

import (
	"bytes"
	"crypto/sha512"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"time"

	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hash"
	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hashtrees"
	"github.com/steve-care-software/rodkina/libs/databases/applications"
	"github.com/steve-care-software/rodkina/libs/databases/domain/references"
	"github.com/steve-care-software/rodkina/libs/databases/infrastructure/files"
)

// Act is one operation of Database.tla.
type Act struct {
	Op   string `json:"op"`
	App  string `json:"app"`
	Name string `json:"name"`
	I    int    `json:"i"`
	H    int    `json:"h"`
	D    int    `json:"d"`
	K    int    `json:"k"`
	Res  string `json:"res"`
	Obs  *Obs   `json:"obs,omitempty"`
}

// Key is a content key as the specification shows it.
type Key struct {
	H    int `json:"h"`
	D    int `json:"d"`
	K    int `json:"k"`
	C    int `json:"c"`
	From int `json:"from"`
	Len  int `json:"len"`
}

// CommitV is a commit as the specification shows it.
type CommitV struct {
	ID     int   `json:"id"`
	Parent int   `json:"parent"`
	Leaves []int `json:"leaves"`
}

// View is what a context, or a freshly opened database, shows.
type View struct {
	Kinds   [][]Key   `json:"kinds"`
	Reads   []int     `json:"reads"`
	Commits []CommitV `json:"commits"`
	// only on the real side; "" means consistent
	Batch string `json:"-"`
	Fetch string `json:"-"`
	Fail  string `json:"-"`
}

// Stored is a database of the directory.
type Stored struct {
	There bool `json:"there"`
	View  View `json:"view"`
}

// CtxV is a context.
type CtxV struct {
	Open bool `json:"open"`
	View View `json:"view"`
}

// Obs is everything that can be observed after a step.
type Obs struct {
	Stored map[string]Stored `json:"stored"`
	Ctxs   map[string][]CtxV `json:"ctxs"`
}

// Behaviour is a sequence of operations; obs is the observation after the last one.
type Behaviour struct {
	Steps []Act `json:"steps"`
	Obs   *Obs  `json:"obs,omitempty"`
	Seed  int64 `json:"seed,omitempty"`
	Case  int   `json:"caseno,omitempty"`
}

type handle struct {
	real uint
	open bool
	name string
}

type concrete struct {
	dst, bck string
	chunks   map[string]uint
	scale    int
	names    map[string]string
	mining   byte
}

type world struct {
	root    string
	dir     string
	cfg     concrete
	apps    map[string]applications.Application
	handles map[string][]handle
	hashes  map[int]hash.Hash
	hashOf  map[string]int
	data    map[int][]byte
	dataOf  map[string]int
	kinds   []uint
	nk, nh  int
	commits map[string]int
	clock   int
	lens    []int

	clockMode int
	clockRng  *rand.Rand
	clockAt   int64
	clockSeen map[int64]bool
	made      map[string]int64 // commit -> the time it carries
}

var hAdapter = hash.NewAdapter()

// setClock gives the calling goroutine a clock of its own until the returned function is called (only where the standard library is hooked).
var setClock func(f func() time.Time) func()

// instant is what the clock of the machine says next: it may be right, wrong, or go back.
func (w *world) instant() time.Time {
	const year = int64(365 * 24 * time.Hour)
	now := time.Now().UnixNano()
	switch w.clockMode {
	case 1: // anything
		w.clockAt = now + w.clockRng.Int63n(200*year) - 100*year
	case 2: // always back
		if w.clockAt == 0 {
			w.clockAt = now
		}
		w.clockAt -= 1 + w.clockRng.Int63n(int64(time.Hour))
	case 3: // back and forth by less than a microsecond
		w.clockAt = now + w.clockRng.Int63n(1000) - 500
	case 4: // an hour ahead, then right, and so on
		w.clockAt = now
		if w.clockRng.Intn(2) == 0 {
			w.clockAt += int64(time.Hour)
		}
	default:
		w.clockAt = now
	}
	// every instant is another one, so that no two commits are the same
	for w.clockSeen[w.clockAt] {
		w.clockAt--
	}
	w.clockSeen[w.clockAt] = true
	return time.Unix(0, w.clockAt)
}

func mustHash(b []byte) hash.Hash {
	p, err := hAdapter.FromBytes(b)
	if err != nil {
		fatal("hash: %v", err)
	}
	return *p
}

func scratchRoot() string {
	base := os.Getenv("VERIF_SCRATCH")
	if base == "" {
		fatal("VERIF_SCRATCH is not set")
	}
	return base
}

var nameFamilies = []map[string]string{
	{"n": "alpha", "m": "beta", "o": "gamma"},
	{"n": "db", "m": "dbx", "o": "xdb"},
	{"n": "db", "m": "db.DST2", "o": "db.DST.x"},
	{"n": "DST", "m": "BCK", "o": "DST.BCK.a"},
	{"n": "a.x", "m": "a", "o": "a.x.c"},
	{"n": "with space", "m": "withspace", "o": "é"},
	{"n": "dbDST", "m": "db", "o": "dbBCK"},
	{"n": ".hidden", "m": "hidden", "o": "hidden."},
	{"n": "db.lock", "m": "db", "o": "db.tmp"},
	{"n": "Books", "m": "books", "o": "BOOKS"},
	{"n": "bok", "m": "b?k", "o": "b*"},
	{"n": "[ab]", "m": "a", "o": "["},
	{"n": "100%", "m": "%s", "o": "%d%%"},
	{"n": "trail ", "m": "trail", "o": " trail"},
	{"n": "~", "m": "$HOME", "o": "a\\b"},
	{"n": "caf\u00e9", "m": "cafe\u0301", "o": "caf\xe9"},
	{"n": "a\nb", "m": "a", "o": "a\tb"},
	{"n": "..a", "m": "...", "o": "-rf"},
}
var extFamilies = [][2]string{{"destination", "backup"}, {"dst", "bck"}, {"d", "b"}, {"new.tmp", "old.tmp"}, {"backup", "destination"}}
var forcedChunk uint // the chunk size of every application, when set
var forcedScale int  // the number of bytes that a unit of length stands for, when set
var chunkChoices = []uint{1, 2, 3, 4, 5, 7, 8, 13, 16, 64, 100, 512, 1000, 4096, 65536, 1000000, 0}
var kindFamilies = [][]uint{{0, 1, 2}, {1, 0, 7}, {7, 1 << 40, 3}, {255, 256, 65536}, {1<<63 - 1, 1<<63 + 5, 0}, {2, 4294967296, 4294967298}}

func replaceAll(s, a, b string) string {
	out := ""
	for i := 0; i < len(s); {
		if i+len(a) <= len(s) && s[i:i+len(a)] == a {
			out += b
			i += len(a)
			continue
		}
		out += s[i : i+1]
		i++
	}
	return out
}

func payload(rng *rand.Rand, id int, n int) []byte {
	out := make([]byte, n)
	switch rng.Intn(4) {
	case 0:
		rng.Read(out)
	case 1:
		for i := range out {
			out[i] = byte(id)
		}
	case 2:
		for i := range out {
			out[i] = 0xff
		}
	}
	// make it unique for its id, from the first byte on
	out[0] = byte(id)
	if n > 1 {
		out[n-1] = byte(id * 31)
	}
	return out
}

// newWorld builds the concrete side of one behaviour: everything the abstract one leaves open is drawn from rng.
func newWorld(root string, rng *rand.Rand, apps []string, lens []int, nh, nk int, maxScale int) *world {
	ext := extFamilies[rng.Intn(len(extFamilies))]
	fam := nameFamilies[rng.Intn(len(nameFamilies))]
	names := map[string]string{}
	for k, v := range fam {
		names[k] = replaceAll(replaceAll(v, "DST", ext[0]), "BCK", ext[1])
	}
	names["n.dst"] = names["n"] + "." + ext[0]
	names["n.bck"] = names["n"] + "." + ext[1]
	scales := []int{1, 1, 1, 2, 3, 13, 100, 1024, 5000}
	sc := scales[rng.Intn(len(scales))]
	if sc > maxScale {
		sc = maxScale
	}
	if forcedScale > 0 {
		sc = forcedScale
	}
	w := &world{
		root:    root,
		dir:     filepath.Join(root, "data"),
		cfg:     concrete{dst: ext[0], bck: ext[1], chunks: map[string]uint{}, scale: sc, names: names, mining: byte(rng.Intn(256))},
		apps:    map[string]applications.Application{},
		handles: map[string][]handle{},
		hashes:  map[int]hash.Hash{},
		hashOf:  map[string]int{},
		data:    map[int][]byte{},
		dataOf:  map[string]int{},
		kinds:   kindFamilies[rng.Intn(len(kindFamilies))],
		nk:      nk,
		nh:      nh,
		commits: map[string]int{},
		clock:   1,
		lens:    lens,

		clockMode: rng.Intn(6),
		clockRng:  rand.New(rand.NewSource(rng.Int63())),
		clockSeen: map[int64]bool{},
		made:      map[string]int64{},
	}
	for _, a := range apps {
		c := chunkChoices[rng.Intn(len(chunkChoices))]
		if forcedChunk > 0 {
			c = forcedChunk
		}
		if sc > 100 && c < 16 {
			c += 61 // tiny chunks on big files only cost time
		}
		if sc > 100000 && c > 0 && c < 5000 {
			c += 5000
		}
		w.cfg.chunks[a] = c
		w.apps[a] = files.NewApplication(w.cfg.mining, w.dir, w.cfg.dst, w.cfg.bck, c)
		w.handles[a] = nil
	}
	// digests of contents, arbitrary ones, and ones that have all but one byte in common
	common := make([]byte, hash.Size)
	rng.Read(common)
	if rng.Intn(3) == 0 {
		common = make([]byte, hash.Size)
	}
	differs := -1
	if rng.Intn(3) == 0 {
		differs = []int{0, 1, 7, 8, 15, 16, 31, 32, 62, 63}[rng.Intn(10)]
	}
	for h := 1; h <= nh; h++ {
		var hs hash.Hash
		if differs >= 0 {
			raw := append([]byte{}, common...)
			raw[differs] = byte(h - 1)
			hs = mustHash(raw)
		} else if rng.Intn(3) == 0 {
			raw := make([]byte, 64)
			rng.Read(raw)
			raw[0] = byte(h)
			hs = mustHash(raw)
		} else {
			hs = mustHash([]byte(fmt.Sprintf("content %d", h)))
		}
		w.hashes[h] = hs
		w.hashOf[hs.String()] = h
	}
	w.hashOf[mustHash(nil).String()] = 0
	for i, l := range lens {
		p := payload(rng, i+1, l*sc)
		w.data[i+1] = p
		w.dataOf[string(p)] = i + 1
	}
	return w
}

func (w *world) fileName(n string) string {
	if v, ok := w.cfg.names[n]; ok {
		return v
	}
	return n
}

func (w *world) dataID(b []byte) int {
	if id, ok := w.dataOf[string(b)]; ok {
		return id
	}
	return -1
}

func (w *world) commitID(h hash.Hash) int {
	if id, ok := w.commits[h.String()]; ok {
		return id
	}
	return -1
}

func merkle(leaves [][]byte) []byte {
	for len(leaves) > 1 {
		next := [][]byte{}
		for i := 0; i+1 < len(leaves); i += 2 {
			s := sha512.Sum512(append(append([]byte{}, leaves[i]...), leaves[i+1]...))
			next = append(next, s[:])
		}
		leaves = next
	}
	return leaves[0]
}

var treeAdapter = hashtrees.NewAdapter()

// view observes a context completely through the public interface.
func (w *world) view(app applications.Application, ctx uint) (v View) {
	v.Kinds = make([][]Key, w.nk)
	v.Reads = make([]int, w.nh)
	v.Commits = []CommitV{}
	defer func() {
		if r := recover(); r != nil {
			v.Fail = fmt.Sprintf("panic while observing: %v", r)
		}
	}()
	pointers := []references.Pointer{}
	singles := [][]byte{}
	pointersOK := true
	for k := 0; k < w.nk; k++ {
		v.Kinds[k] = []Key{}
		keys, err := app.ContentKeysByKind(ctx, w.kinds[k])
		if err != nil {
			continue
		}
		list := keys.List()
		if len(list) == 0 {
			v.Kinds[k] = append(v.Kinds[k], Key{H: -9})
		}
		for _, one := range list {
			key := Key{H: -1, D: -2, K: -1, C: w.commitID(one.Commit()), From: int(one.Content().From()), Len: int(one.Content().Length())}
			if id, ok := w.hashOf[one.Hash().String()]; ok {
				key.H = id
			}
			for kk := 0; kk < w.nk; kk++ {
				if w.kinds[kk] == one.Kind() {
					key.K = kk + 1
				}
			}
			if key.From%w.cfg.scale == 0 && key.Len%w.cfg.scale == 0 {
				key.From /= w.cfg.scale
				key.Len /= w.cfg.scale
			} else {
				key.From, key.Len = -key.From, -key.Len
			}
			data, err := app.Read(ctx, one.Content())
			if err == nil {
				key.D = w.dataID(data)
				pointers = append(pointers, one.Content())
				singles = append(singles, data)
			} else {
				pointersOK = false
			}
			v.Kinds[k] = append(v.Kinds[k], key)
		}
	}
	known := []hash.Hash{}
	knownData := [][]byte{}
	for h := 1; h <= w.nh; h++ {
		data, err := app.ReadByHash(ctx, w.hashes[h])
		if err != nil {
			continue
		}
		v.Reads[h-1] = w.dataID(data)
		known = append(known, w.hashes[h])
		knownData = append(knownData, data)
	}
	// batches say what the single reads say
	if pointersOK {
		// in a different order than they were listed
		rev := []references.Pointer{}
		for i := len(pointers) - 1; i >= 0; i-- {
			rev = append(rev, pointers[i])
		}
		if all, err := app.ReadAll(ctx, pointers); err != nil || len(all) != len(pointers) {
			v.Batch = fmt.Sprintf("ReadAll of %d pointers in order: %d results, err %v", len(pointers), len(all), err)
		} else if i := apart(all, singles); i >= 0 {
			v.Batch = fmt.Sprintf("ReadAll in order differs from Read at %d, or changes with what its caller does to the others", i)
		}
		all, err := app.ReadAll(ctx, rev)
		if err != nil || len(all) != len(rev) {
			v.Batch = fmt.Sprintf("ReadAll of %d pointers: %d results, err %v", len(rev), len(all), err)
		} else {
			for i := range all {
				if string(all[i]) != string(singles[len(singles)-1-i]) {
					v.Batch = fmt.Sprintf("ReadAll differs from Read at %d", i)
				}
			}
		}
	}
	all, err := app.ReadAllByHashes(ctx, known)
	if err != nil || len(all) != len(known) {
		v.Batch = fmt.Sprintf("ReadAllByHashes of %d hashes: %d results, err %v", len(known), len(all), err)
	} else if i := apart(all, knownData); i >= 0 {
		v.Batch = fmt.Sprintf("ReadAllByHashes differs from ReadByHash at %d, or changes with what its caller does to the others", i)
	}
	// repeated ones are read as often as they are asked for
	if n := len(known); n > 0 {
		again := []hash.Hash{known[n-1], known[0], known[0], known[n-1]}
		want := [][]byte{knownData[n-1], knownData[0], knownData[0], knownData[n-1]}
		if all, err := app.ReadAllByHashes(ctx, again); err != nil || jsonStr(all) != jsonStr(want) {
			v.Batch = fmt.Sprintf("ReadAllByHashes of repeated hashes: %d results, err %v", len(all), err)
		}
	}
	if n := len(pointers); n > 0 && pointersOK {
		again := []references.Pointer{pointers[n-1], pointers[0], pointers[0], pointers[n-1]}
		want := [][]byte{singles[n-1], singles[0], singles[0], singles[n-1]}
		if all, err := app.ReadAll(ctx, again); err != nil || jsonStr(all) != jsonStr(want) {
			v.Batch = fmt.Sprintf("ReadAll of repeated pointers: %d results, err %v", len(all), err)
		}
	}
	// hashes that were never written: an unrelated one, and near misses of known ones
	missing := mustHash([]byte("never written"))
	for n, one := range append([]hash.Hash{missing}, known...) {
		if n > 4 {
			break
		}
		for _, at := range []int{0, 8, 31, 63} {
			raw := append([]byte{}, one...)
			raw[at] ^= 0x40
			near := mustHash(raw)
			if _, ok := w.hashOf[near.String()]; ok {
				continue
			}
			if _, err := app.ReadByHash(ctx, near); err == nil {
				v.Batch = fmt.Sprintf("ReadByHash of an unknown hash, one byte (%d) away from one that was written, succeeded", at)
			}
			if _, err := app.CommitByHash(ctx, near); err == nil {
				v.Fetch = "CommitByHash of a hash near that of a content succeeded"
			}
		}
	}
	if _, err := app.ReadByHash(ctx, missing); err == nil {
		v.Batch = "ReadByHash of an unknown hash succeeded"
	}
	if _, err := app.ReadAllByHashes(ctx, append(append([]hash.Hash{}, known...), missing)); err == nil {
		v.Batch = "ReadAllByHashes with an unknown hash succeeded"
	}
	commits, err := app.Commits(ctx)
	if err != nil {
		if _, err := app.CommitByHash(ctx, missing); err == nil {
			v.Fetch = "CommitByHash succeeded without commits"
		}
		return v
	}
	if len(commits.List()) == 0 {
		v.Fetch = "Commits returned an empty list without error"
	}
	for _, one := range commits.List() {
		c := CommitV{ID: w.commitID(one.Hash()), Leaves: []int{}}
		if one.HasParent() {
			c.Parent = w.commitID(*one.Parent())
		}
		compact, err := treeAdapter.ToCompact(one.Values())
		if err != nil {
			v.Fetch = "values tree without compact form"
		} else {
			heads := [][]byte{}
			for _, leaf := range compact.Leaves().Leaves() {
				heads = append(heads, leaf.Head().Bytes())
				if id, ok := w.hashOf[leaf.Head().String()]; ok {
					c.Leaves = append(c.Leaves, id)
				} else {
					c.Leaves = append(c.Leaves, -1)
				}
			}
			if string(merkle(heads)) != string(one.Values().Head().Bytes()) {
				v.Fetch = "head of the values tree is not the hash of its leaves"
			}
		}
		if at, ok := w.made[one.Hash().String()]; ok && one.CreatedOn().UnixNano() != at {
			v.Fetch = "the time of a commit is no longer the one it was made on"
		}
		back, err := app.CommitByHash(ctx, one.Hash())
		if err != nil || !bytes.Equal(back.Hash(), one.Hash()) || back.HasParent() != one.HasParent() || !bytes.Equal(back.Values().Head(), one.Values().Head()) {
			v.Fetch = "CommitByHash does not return the commit of the list"
		}
		for _, at := range []int{0, 63} {
			raw := append([]byte{}, one.Hash()...)
			raw[at] ^= 0x10
			if _, err := app.CommitByHash(ctx, mustHash(raw)); err == nil {
				v.Fetch = "CommitByHash of an unknown hash, one byte away from that of a commit, succeeded"
			}
		}
		v.Commits = append(v.Commits, c)
	}
	if len(v.Commits) > 0 {
		last := commits.List()[len(v.Commits)-1]
		if !bytes.Equal(commits.Latest().Hash(), last.Hash()) {
			v.Fetch = "Latest is not the last commit"
		}
	}
	if _, err := app.CommitByHash(ctx, missing); err == nil {
		v.Fetch = "CommitByHash of an unknown hash succeeded"
	}
	return v
}

// fresh observes a stored database with an application of its own.
func (w *world) fresh(dir string, name string, chunk uint) (s Stored) {
	app := files.NewApplication(w.cfg.mining, dir, w.cfg.dst, w.cfg.bck, chunk)
	s.View = w.emptyView()
	ok, err := app.Exists(w.fileName(name))
	s.There = ok && err == nil
	if !s.There {
		return s
	}
	defer func() {
		if r := recover(); r != nil {
			s.View.Fail = fmt.Sprintf("panic while opening: %v", r)
		}
	}()
	pCtx, err := app.Open(w.fileName(name))
	if err != nil {
		s.View.Fail = "open failed: " + err.Error()
		return s
	}
	s.View = w.view(app, *pCtx)
	if err := app.Close(*pCtx); err != nil && s.View.Fail == "" {
		s.View.Fail = "close failed: " + err.Error()
	}
	return s
}

func (w *world) emptyView() View {
	v := View{Kinds: make([][]Key, w.nk), Reads: make([]int, w.nh), Commits: []CommitV{}}
	for i := range v.Kinds {
		v.Kinds[i] = []Key{}
	}
	return v
}

// real identifier of a handle; ok is false when it must not be used (closed, and handed out again)
func (w *world) realID(app string, i int) (uint, bool) {
	hs := w.handles[app]
	if i < 1 || i > len(hs) {
		// never handed out
		id := uint(4242)
		for _, h := range hs {
			if h.real >= id {
				id = h.real + 1000
			}
		}
		return id, true
	}
	h := hs[i-1]
	if h.open {
		return h.real, true
	}
	for _, other := range hs {
		if other.open && other.real == h.real {
			return 0, false
		}
	}
	return h.real, true
}

type stepOutcome struct {
	res     string // ok, err, skip
	err     string
	dupID   bool
	late    string
	panicAt string
}

func (w *world) do(a Act) (out stepOutcome) {
	app := w.apps[a.App]
	defer func() {
		if r := recover(); r != nil {
			out.res = "panic"
			out.err = fmt.Sprintf("%v", r)
		}
	}()
	set := func(err error) {
		out.res = "ok"
		if err != nil {
			out.res = "err"
			out.err = err.Error()
		}
	}
	switch a.Op {
	case "new":
		err := app.New(w.fileName(a.Name))
		set(err)
		if err == nil {
			w.clock++
		}
	case "delete":
		set(app.Delete(w.fileName(a.Name)))
	case "open":
		p, err := app.Open(w.fileName(a.Name))
		set(err)
		if err == nil && p == nil {
			out.res, out.err = "panic", "Open returned neither a context nor an error"
			return
		}
		if err == nil {
			for _, h := range w.handles[a.App] {
				if h.open && h.real == *p {
					out.dupID = true
				}
			}
			w.handles[a.App] = append(w.handles[a.App], handle{real: *p, open: true, name: a.Name})
		}
	case "write":
		id, ok := w.realID(a.App, a.I)
		if !ok {
			out.res = "skip"
			return
		}
		buf := append([]byte{}, w.data[a.D]...)
		err := app.Write(id, w.hashes[a.H], buf, w.kinds[a.K-1])
		set(err)
		// the caller is free to reuse its buffer
		for i := range buf {
			buf[i] ^= 0x5a
		}
	case "cancel":
		id, ok := w.realID(a.App, a.I)
		if !ok {
			out.res = "skip"
			return
		}
		set(app.Cancel(id))
	case "close":
		id, ok := w.realID(a.App, a.I)
		if !ok {
			out.res = "skip"
			return
		}
		err := app.Close(id)
		set(err)
		if err == nil && a.I >= 1 && a.I <= len(w.handles[a.App]) {
			w.handles[a.App][a.I-1].open = false
		}
	case "commit":
		id, ok := w.realID(a.App, a.I)
		if !ok {
			out.res = "skip"
			return
		}
		times := []time.Time{time.Now()}
		release := func() {}
		if setClock != nil {
			release = setClock(func() time.Time {
				t := w.instant()
				times = append(times, t)
				return t
			})
		}
		err := func() error {
			defer release()
			return app.Commit(id)
		}()
		set(err)
		if err == nil {
			out.late = w.noteCommit(app, id, append(times, time.Now()))
		}
	case "exists":
		ok, err := app.Exists(w.fileName(a.Name))
		if err != nil {
			out.res, out.err = "err", err.Error()
		} else if ok {
			out.res = "ok"
		} else {
			out.res = "err"
		}
	default:
		fatal("unknown op %q", a.Op)
	}
	return
}

// noteCommit gives the newest commit of a context the identity the specification gave it. The time it carries is one of
// those the clock gave while it was made.
func (w *world) noteCommit(app applications.Application, id uint, times []time.Time) (late string) {
	defer func() { recover() }()
	if commits, err := app.Commits(id); err == nil && len(commits.List()) > 0 {
		list := commits.List()
		last := list[len(list)-1]
		hs := last.Hash().String()
		if _, known := w.commits[hs]; !known {
			w.commits[hs] = w.clock
			w.made[hs] = last.CreatedOn().UnixNano()
			late = fmt.Sprintf("the commit was made on %v, the clock said %v", last.CreatedOn(), times)
			for _, t := range times {
				if d := last.CreatedOn().Sub(t); d > -2*time.Second && d < 2*time.Second {
					late = ""
				}
			}
		}
	}
	w.clock++
	return
}

func (w *world) observe(names []string, freshChunk uint) Obs {
	o := Obs{Stored: map[string]Stored{}, Ctxs: map[string][]CtxV{}}
	for _, n := range names {
		st := w.fresh(w.dir, n, freshChunk)
		if n == folderName {
			// a directory: never a database, and always there
			info, err := os.Stat(filepath.Join(w.dir, n))
			st.There = st.There || err != nil || !info.IsDir()
		}
		o.Stored[n] = st
	}
	for a, hs := range w.handles {
		list := []CtxV{}
		for _, h := range hs {
			if h.open {
				list = append(list, CtxV{Open: true, View: w.view(w.apps[a], h.real)})
			} else {
				list = append(list, CtxV{Open: false, View: w.emptyView()})
			}
		}
		o.Ctxs[a] = list
	}
	return o
}

// closedRefused checks that the identifiers of closed contexts are refused by the reading operations.
func (w *world) closedRefused() string {
	for a, hs := range w.handles {
		for i, h := range hs {
			if h.open {
				continue
			}
			id, ok := w.realID(a, i+1)
			if !ok {
				continue
			}
			app := w.apps[a]
			if _, err := app.Commits(id); err == nil {
				return "Commits accepts a closed context"
			}
			if _, err := app.ContentKeysByKind(id, w.kinds[0]); err == nil {
				return "ContentKeysByKind accepts a closed context"
			}
			if _, err := app.ReadByHash(id, w.hashes[1]); err == nil {
				return "ReadByHash accepts a closed context"
			}
			p, _ := references.NewPointerBuilder().Create().From(0).WithLength(1).Now()
			if _, err := app.Read(id, p); err == nil {
				return "Read accepts a closed context"
			}
		}
	}
	return ""
}

// ---------------------------------------------------------------------------
// comparison

func flat(v View) []Key {
	out := []Key{}
	for _, l := range v.Kinds {
		out = append(out, l...)
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].From < out[j].From })
	return out
}

func intsEq(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// diffView returns the aspects in which two views differ:
// data (what reads return), keys (which writes are listed), order (hash sequence over all kinds), place (pointers, kinds), chain (commits), fail
func diffView(exp, got View) map[string]string {
	d := map[string]string{}
	if got.Fail != "" {
		d["fail"] = got.Fail
		return d
	}
	if !intsEq(exp.Reads, got.Reads) {
		d["data"] = fmt.Sprintf("reads by hash: expected %v, got %v", exp.Reads, got.Reads)
	}
	if got.Batch != "" {
		d["data"] = got.Batch
	}
	ek, gk := flat(exp), flat(got)
	eh, gh := []int{}, []int{}
	for _, k := range ek {
		eh = append(eh, k.H)
	}
	for _, k := range gk {
		gh = append(gh, k.H)
	}
	if !intsEq(eh, gh) {
		d["keys"] = fmt.Sprintf("hashes listed: expected %v, got %v", eh, gh)
	}
	for k := range exp.Kinds {
		if k >= len(got.Kinds) {
			continue
		}
		e, g := exp.Kinds[k], got.Kinds[k]
		if len(e) != len(g) {
			d["place"] = fmt.Sprintf("kind %d: expected %v, got %v", k+1, e, g)
			continue
		}
		for i := range e {
			if e[i].H != g[i].H || e[i].K != g[i].K || e[i].From != g[i].From || e[i].Len != g[i].Len {
				d["place"] = fmt.Sprintf("kind %d: expected %v, got %v", k+1, e, g)
			}
			if e[i].C != g[i].C && e[i].H == g[i].H {
				d["chain"] = fmt.Sprintf("kind %d: commit of a key: expected %v, got %v", k+1, e, g)
				d["place"] = d["chain"]
			}
			if e[i].D != g[i].D && e[i].H == g[i].H {
				d["data"] = fmt.Sprintf("kind %d: read by pointer: expected %v, got %v", k+1, e, g)
			}
		}
	}
	if len(exp.Commits) != len(got.Commits) {
		d["chain"] = fmt.Sprintf("commits: expected %v, got %v", exp.Commits, got.Commits)
	} else {
		for i := range exp.Commits {
			e, g := exp.Commits[i], got.Commits[i]
			if e.ID != g.ID || e.Parent != g.Parent || !intsEq(e.Leaves, g.Leaves) {
				d["chain"] = fmt.Sprintf("commits: expected %v, got %v", exp.Commits, got.Commits)
			}
		}
	}
	if got.Fetch != "" {
		d["chain"] = got.Fetch
	}
	return d
}

type dbRun struct {
	w        *world
	names    []string
	chunk    uint
	prevBad  map[string]bool // view -> differed at the previous observation
	obsCount int
}

type dbMismatch struct {
	step  int
	props map[string]bool
	what  string
	hard  bool
	exp   interface{}
	got   interface{}
}

func props(list ...string) map[string]bool {
	m := map[string]bool{}
	for _, p := range list {
		m[p] = true
	}
	return m
}

func copyFlags(in map[string]bool) map[string]bool {
	out := map[string]bool{}
	for k, v := range in {
		out[k] = v
	}
	return out
}

// checkStep executes one step and compares it with what the specification predicts.
func (r *dbRun) checkStep(n int, a Act, obs *Obs, prior []Act) []dbMismatch {
	w := r.w
	out := []dbMismatch{}
	wasOpen := a.I >= 1 && a.I <= len(w.handles[a.App]) && w.handles[a.App][a.I-1].open
	before := map[string]bool{}
	for nm := range w.cfg.names {
		before[nm] = false
	}
	got := w.do(a)
	if got.res == "skip" {
		return nil
	}
	if got.dupID {
		out = append(out, dbMismatch{step: n, props: props("C06"), what: "open returned the identifier of a context that is open", hard: true})
	}
	if got.late != "" {
		out = append(out, dbMismatch{step: n, props: props("C03"), what: got.late})
	}
	if got.res != a.Res {
		p := map[string]bool{}
		switch {
		case a.Op == "new" || a.Op == "delete" || a.Op == "exists":
			p["C07"] = true
		case a.Op == "open" && a.Res == "ok":
			p["C01"], p["C07"] = true, true
			for _, one := range prior {
				if one.Op == "commit" && one.Res == "ok" && one.Name == a.Name {
					p["C03"], p["C09"] = true, true
				}
			}
			for _, h := range w.handles[a.App] {
				if h.name == a.Name && !h.open {
					p["C06"] = true
				}
			}
		case a.Op == "open":
			if openOn(w, a.App, a.Name) {
				p["C06"] = true
			} else {
				p["C07"] = true
			}
		case !wasOpen:
			p["C06"] = true
		case a.Op == "write":
			if a.D != 0 {
				p["C02"], p["C06"] = true, true
			} else {
				p["K01"] = true
			}
		case a.Op == "cancel" || a.Op == "close":
			p["C02"], p["C06"] = true, true
		case a.Op == "commit" && a.Res == "ok":
			p["C01"], p["C02"] = true, true
		case a.Op == "commit" && pendingIn(prior, a.App, a.I) == 0:
			p["C02"] = true
		case a.Op == "commit":
			p["C08"], p["C03"] = true, true
		}
		out = append(out, dbMismatch{step: n, props: p, hard: true,
			what: fmt.Sprintf("%s: the specification says %s, the code says %s (%s)", a.Op, a.Res, got.res, got.err)})
		return out
	}
	if obs == nil {
		return out
	}
	r.obsCount++
	real := w.observe(r.names, r.chunk)
	bad := map[string]bool{}
	commitOK := a.Op == "commit" && a.Res == "ok"
	for nm, e := range obs.Stored {
		g := real.Stored[nm]
		id := "stored " + nm
		p := map[string]bool{}
		what := ""
		if e.There != g.There {
			p["C07"] = true
			if a.Op == "commit" {
				p["C01"] = true
			}
			what = fmt.Sprintf("%s: expected to exist %v, exists %v", id, e.There, g.There)
		} else if e.There {
			d := diffView(e.View, g.View)
			if len(d) > 0 {
				what = id + ": " + jsonStr(d)
				addAspects(p, d)
				if nm != a.Name && !r.prevBad[id] {
					p["C07"] = true
				}
				_, keys := d["keys"]
				_, chain := d["chain"]
				if nm == a.Name && (keys || chain) && !commitOK && a.Op != "new" && a.Op != "delete" {
					p["C02"] = true
				}
			}
		}
		if what != "" {
			bad[id] = true
			if !r.prevBad[id] {
				out = append(out, dbMismatch{step: n, props: p, what: what, exp: e, got: g})
			}
		}
	}
	for app, list := range obs.Ctxs {
		for i, e := range list {
			if !e.Open || i >= len(real.Ctxs[app]) {
				continue
			}
			g := real.Ctxs[app][i]
			id := fmt.Sprintf("context %s/%d", app, i+1)
			d := diffView(e.View, g.View)
			if len(d) == 0 {
				continue
			}
			bad[id] = true
			if r.prevBad[id] {
				continue
			}
			p := map[string]bool{}
			addAspects(p, d)
			target := app == a.App && (i+1 == a.I)
			if !target && app == a.App {
				p["C06"] = true
			}
			if !target && app != a.App {
				p["C08"] = true
			}
			_, keys := d["keys"]
			_, chain := d["chain"]
			if (keys || chain) && !commitOK {
				p["C02"] = true
			}
			out = append(out, dbMismatch{step: n, props: p, what: id + ": " + jsonStr(d), exp: e, got: g})
		}
	}
	if msg := w.closedRefused(); msg != "" && !r.prevBad["closed"] {
		bad["closed"] = true
		out = append(out, dbMismatch{step: n, props: props("C06"), what: msg})
	}
	r.prevBad = bad
	return out
}

func addAspects(p map[string]bool, d map[string]string) {
	if _, ok := d["data"]; ok {
		p["C01"] = true
	}
	if _, ok := d["keys"]; ok {
		p["C02"], p["C09"] = true, true
	}
	if _, ok := d["place"]; ok {
		p["C09"] = true
	}
	if _, ok := d["chain"]; ok {
		p["C03"] = true
	}
	if _, ok := d["fail"]; ok {
		// what cannot be opened or observed shows none of its contents, listings and commits
		p["C01"], p["C03"], p["C09"] = true, true, true
	}
}

func openOn(w *world, app, name string) bool {
	for _, h := range w.handles[app] {
		if h.open && h.name == name {
			return true
		}
	}
	return false
}

// pendingIn counts the pending writes of a context after the given operations.
func pendingIn(prior []Act, app string, i int) int {
	n := 0
	for _, a := range prior {
		if a.App != app || a.I != i || a.Res != "ok" {
			continue
		}
		switch a.Op {
		case "write":
			n++
		case "commit", "cancel", "close":
			n = 0
		}
	}
	return n
}

func appsOf(b Behaviour) []string {
	set := map[string]bool{"a": true}
	for _, s := range b.Steps {
		if s.App != "" {
			set[s.App] = true
		}
	}
	return sortedKeys(set)
}

func namesOf(b Behaviour) []string {
	set := map[string]bool{}
	for _, s := range b.Steps {
		if s.Obs != nil {
			for n := range s.Obs.Stored {
				set[n] = true
			}
		}
	}
	if b.Obs != nil {
		for n := range b.Obs.Stored {
			set[n] = true
		}
	}
	return sortedKeys(set)
}

// folderName is the name of an empty directory that stands among the databases when a behaviour talks about it.
const folderName = "folder"

func (w *world) makeFolder(names []string) {
	for _, n := range names {
		if n == folderName {
			if err := os.MkdirAll(filepath.Join(w.dir, n), 0755); err != nil {
				fatal("%v", err)
			}
		}
	}
}

// runBehaviour executes a behaviour in a scratch directory of its own.
func runBehaviour(b Behaviour, rng *rand.Rand, lens []int, nh, nk, maxScale int) ([]dbMismatch, int) {
	root, err := os.MkdirTemp(scratchRoot(), "db")
	if err != nil {
		fatal("scratch: %v", err)
	}
	defer os.RemoveAll(root)
	w := newWorld(root, rng, appsOf(b), lens, nh, nk, maxScale)
	r := &dbRun{w: w, names: namesOf(b), chunk: w.cfg.chunks["a"], prevBad: map[string]bool{}}
	if rng.Intn(2) == 0 {
		r.chunk = chunkChoices[4+rng.Intn(len(chunkChoices)-4)]
	}
	if forcedChunk > 0 {
		r.chunk = forcedChunk
	}
	w.makeFolder(r.names)
	all := []dbMismatch{}
	steps := 0
	for n, a := range b.Steps {
		obs := a.Obs
		if obs == nil && n == len(b.Steps)-1 {
			obs = b.Obs
		}
		ms := r.checkStep(n, a, obs, b.Steps[:n])
		steps++
		all = append(all, ms...)
		stop := false
		for _, m := range ms {
			stop = stop || m.hard
		}
		if stop {
			break
		}
	}
	for _, hs := range w.handles {
		_ = hs
	}
	for a, hs := range w.handles {
		for _, h := range hs {
			if h.open {
				func() {
					defer func() { recover() }()
					w.apps[a].Close(h.real)
				}()
			}
		}
	}
	return all, steps
}

// project keeps the operations of one context, and those on its database that need no context.
func project(b Behaviour, upto int, app string, i int) Behaviour {
	name := ""
	for _, a := range b.Steps[:upto+1] {
		if a.App == app && a.I == i && a.Op == "open" && a.Res == "ok" {
			name = a.Name
		}
	}
	out := Behaviour{}
	renum := false
	for n, a := range b.Steps[:upto+1] {
		keep := false
		if a.App == app && a.I == i && a.Op != "open" {
			keep = true
		}
		if a.Op == "open" && a.App == app && a.I == i {
			keep = true
		}
		if (a.Op == "new" || a.Op == "delete") && a.Name == name {
			keep = true
		}
		if !keep {
			continue
		}
		c := a
		c.Obs = nil
		if a.App == app && a.I == i {
			c.I = 1
			renum = true
		}
		if n == upto {
			obs := a.Obs
			if obs == nil {
				obs = b.Obs
			}
			if obs != nil && i-1 < len(obs.Ctxs[app]) {
				c.Obs = &Obs{Stored: map[string]Stored{}, Ctxs: map[string][]CtxV{app: {obs.Ctxs[app][i-1]}}}
			}
		}
		out.Steps = append(out.Steps, c)
	}
	_ = renum
	return out
}

func cmdDBReplay(f map[string]string) {
	seed := int64(atoi(f["seed"], 1))
	maxScale := atoi(f["maxscale"], 5000)
	forcedChunk = uint(atoi(f["chunk"], 0))
	forcedScale = atoi(f["scale"], 0)
	var lens []int
	if err := json.Unmarshal([]byte(f["lens"]), &lens); err != nil {
		fatal("lens: %v", err)
	}
	nh, nk := atoi(f["nh"], 2), atoi(f["nk"], 2)
	workers := atoi(f["workers"], 8)
	rounds := atoi(f["rounds"], 1)
	type job struct {
		n    int
		line []byte
	}
	jobs := make(chan job, 256)
	type answer struct {
		n     int
		steps int
		ms    []Mismatch
	}
	answers := make(chan answer, 256)
	for k := 0; k < workers; k++ {
		go func(k int) {
			for j := range jobs {
				noteCase(k, j.line)
				var b Behaviour
				if err := json.Unmarshal(j.line, &b); err != nil {
					fatal("line %d: %v: %.200s", j.n, err, j.line)
				}
				ans := answer{n: j.n}
				for round := 0; round < rounds; round++ {
					sd, cn := seed, j.n*rounds+round
					if b.Seed != 0 {
						sd, cn = b.Seed, b.Case
					}
					var ms []dbMismatch
					var steps int
					msg := guard(60*time.Second, func() {
						ms, steps = runBehaviour(b, newRand(sd, cn), lens, nh, nk, maxScale)
					})
					if msg != "" {
						ans.ms = append(ans.ms, Mismatch{Props: []string{"*"}, Case: j.n, What: msg, Replay: b})
						hung()
						continue
					}
					ans.steps += steps
					for _, m := range ms {
						// a commit that stores something else than this context's writes: would it, had the context been alone?
						a := b.Steps[m.step]
						if a.Op == "commit" && m.props["C02"] && !m.props["C06"] && len(b.Steps) > 0 && a.I > 0 && hasOther(b, m.step, a.App, a.I) {
							pb := project(b, m.step, a.App, a.I)
							pm, _ := runBehaviour(pb, newRand(sd, cn), lens, nh, nk, maxScale)
							alone := true
							for _, x := range pm {
								if x.props["C02"] {
									alone = false
								}
							}
							if alone {
								m.props["C06"] = true
							}
						}
						bb := b
						bb.Steps = b.Steps[:m.step+1]
						if m.step+1 < len(b.Steps) {
							bb.Obs = nil
						}
						bb.Seed, bb.Case = sd, cn
						ans.ms = append(ans.ms, Mismatch{Props: sortedKeys(m.props), Case: j.n, Step: m.step, What: m.what, Exp: m.exp, Got: m.got, Replay: bb})
					}
				}
				answers <- ans
			}
			answers <- answer{n: -1}
		}(k)
	}
	go func() {
		readLines(f["in"], func(n int, line []byte) {
			c := append([]byte{}, line...)
			jobs <- job{n, c}
		})
		close(jobs)
	}()
	res := &Result{}
	left := workers
	distinct := 0
	collected := []Mismatch{}
	for left > 0 {
		a := <-answers
		if a.n == -1 {
			left--
			continue
		}
		res.Cases += rounds
		distinct++
		res.Steps += a.steps
		collected = append(collected, a.ms...)
	}
	sort.SliceStable(collected, func(i, j int) bool {
		if collected[i].Step != collected[j].Step {
			return collected[i].Step < collected[j].Step
		}
		return collected[i].Case < collected[j].Case
	})
	for _, m := range collected {
		res.add(m)
	}
	res.Distinct = distinct
	res.finish(f["out"])
}

func hasOther(b Behaviour, upto int, app string, i int) bool {
	for _, a := range b.Steps[:upto+1] {
		if a.I > 0 && (a.App != app || a.I != i) {
			return true
		}
	}
	return false
}

// cmdDBRandom records traces of random operations, far beyond the model's bounds.
func cmdDBRandom(f map[string]string) {
	seed := int64(atoi(f["seed"], 1))
	runs := atoi(f["runs"], 20)
	length := atoi(f["length"], 40)
	nh, nk := atoi(f["nh"], 5), atoi(f["nk"], 3)
	var lens []int
	if err := json.Unmarshal([]byte(f["lens"]), &lens); err != nil {
		fatal("lens: %v", err)
	}
	appList := []string{"a", "b"}
	nameList := []string{"n", "m", "o", "n.dst", "n.bck", folderName}
	out, err := os.Create(f["out"])
	if err != nil {
		fatal("%v", err)
	}
	enc := json.NewEncoder(out)
	for run := 0; run < runs; run++ {
		rng := newRand(seed, run)
		root, err := os.MkdirTemp(scratchRoot(), "dbr")
		if err != nil {
			fatal("%v", err)
		}
		// must draw exactly as runBehaviour does, so that a run can be replayed
		w := newWorld(root, rng, appList, lens, nh, nk, 100)
		chunk := w.cfg.chunks["a"]
		if rng.Intn(2) == 0 {
			chunk = chunkChoices[4+rng.Intn(len(chunkChoices)-4)]
		}
		w.makeFolder(nameList)
		ops := newRand(seed^0x5bd1e995, run)
		enc.Encode(map[string]interface{}{"op": "reset", "run": run})
		multi := ops.Intn(3) == 0
		for n := 0; n < length; n++ {
			a := randomAct(ops, w, nameList, multi, n)
			got := w.do(a)
			if got.res == "skip" {
				continue
			}
			a.Res = got.res
			if a.Op == "open" && a.Res == "ok" {
				a.I = len(w.handles[a.App])
			}
			if a.I >= 1 && a.I <= len(w.handles[a.App]) && a.Name == "" {
				a.Name = w.handles[a.App][a.I-1].name
			}
			obs := w.observe(nameList, chunk)
			extra := ""
			if got.dupID {
				extra = "duplicate identifier"
			}
			extra += got.late
			extra += w.closedRefused()
			for _, s := range obs.Stored {
				extra += s.View.Fail + s.View.Batch + s.View.Fetch
			}
			for _, l := range obs.Ctxs {
				for _, c := range l {
					extra += c.View.Fail + c.View.Batch + c.View.Fetch
				}
			}
			enc.Encode(map[string]interface{}{"op": a.Op, "app": a.App, "name": a.Name, "i": a.I, "h": a.H, "d": a.D, "k": a.K, "res": a.Res, "obs": obs, "extra": extra})
			if got.res == "panic" || got.dupID {
				break
			}
		}
		for a, hs := range w.handles {
			for _, h := range hs {
				if h.open {
					func() {
						defer func() { recover() }()
						w.apps[a].Close(h.real)
					}()
				}
			}
		}
		os.RemoveAll(root)
	}
	out.Close()
}

func randomAct(rng *rand.Rand, w *world, names []string, multi bool, n int) Act {
	a := Act{App: "a"}
	if multi && rng.Intn(2) == 0 {
		a.App = "b"
	}
	hs := w.handles[a.App]
	pick := func() int {
		// mostly an open context, sometimes any handle
		open := []int{}
		for i, h := range hs {
			if h.open {
				open = append(open, i+1)
			}
		}
		if len(open) > 0 && rng.Intn(12) != 0 {
			return open[rng.Intn(len(open))]
		}
		return 1 + rng.Intn(len(hs)+1)
	}
	name := func() string {
		x := rng.Intn(20)
		switch {
		case x < 9:
			return names[0]
		case x < 14:
			return names[1]
		case x < 18:
			return names[2]
		default:
			return names[3+rng.Intn(len(names)-3)]
		}
	}
	r := rng.Intn(100)
	switch {
	case n < 2 || r < 6:
		a.Op, a.Name = "new", name()
	case r < 8:
		a.Op, a.Name = "delete", name()
	case r < 20 || (len(hs) == 0 && r < 60):
		a.Op, a.Name = "open", name()
	case r < 60:
		a.Op, a.I, a.H, a.D, a.K = "write", pick(), 1+rng.Intn(w.nh), 1+rng.Intn(len(w.data)), 1+rng.Intn(w.nk)
		if rng.Intn(30) == 0 {
			a.D = 0
		}
	case r < 84:
		a.Op, a.I = "commit", pick()
	case r < 88:
		a.Op, a.I = "cancel", pick()
	case r < 97:
		a.Op, a.I = "close", pick()
	default:
		a.Op, a.Name = "new", name()
	}
	return a
}

func init() {
	commands["db-replay"] = cmdDBReplay
	commands["db-random"] = cmdDBRandom
}

// apart compares a batch with what single reads gave; every result is the caller's own: changing it, or adding to it, leaves
// the other results as they are.
func apart(all, want [][]byte) int {
	for i := range all {
		if string(all[i]) != string(want[i]) {
			return i
		}
		for j := range all[i] {
			all[i][j] ^= 0x5A
		}
		_ = append(all[i], 0xA5)
	}
	return -1
}
