package main

import (
	"bytes"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"

	"github.com/smartbch/moeingads/indextree"
	"github.com/smartbch/moeingads/indextree/b"
	"github.com/smartbch/moeingads/metadb"
	"github.com/smartbch/moeingads/types"
	"github.com/tecbot/gorocksdb"
)

// The in-memory B-tree, the index tree, the key-value wrapper and the metadata store.

// BOp: T 0 set, 1 put-and-get-old, 2 delete, 3 get, 4 seek forward, 5 seek backward, 6 seek first, 7 bulk set, 8 bulk delete,
// 9 bulk operations from several goroutines in disjoint slots, 10 full comparison
type BOp struct {
	T int `json:"t"`
	H int `json:"h,omitempty"` // leading 16 bits
	L int `json:"l,omitempty"` // trailing 48 bits
	V int `json:"v,omitempty"`
	N int `json:"n,omitempty"`
	S int `json:"s,omitempty"`
}

type BCase struct {
	Prof int
	Ops  []BOp
}

const mask48 = uint64(1)<<48 - 1

var hiPool = []uint64{0, 1, 2, 0xff, 0x100, 0x3fff, 0x4000, 0x7fff, 0x8000, 0xbfff, 0xc000, 0xfffd, 0xfffe, 0xffff}
var loPool = []uint64{0, 1, 2, 255, 256, 0xffff, 0x10000, 0x800000, 1 << 24, 1 << 32, 1 << 47, 1<<47 - 1, mask48 - 1, mask48}

func btKey(prof, h, l int) uint64 {
	h, l = abs(h), abs(l)
	var hi, lo uint64
	hs, ls := len(hiPool), len(loPool)
	switch abs(prof) % 5 {
	case 1: // one slot
		hi = hiPool[h%2]
		lo = uint64(l)
		return hi<<48 | lo&mask48
	case 2: // few slots
		hs = 4
	case 3: // few low parts in many slots
		ls = 3
	case 4:
		return newRand("btk", h%64, l%512).Uint64()
	}
	if h%31 < hs {
		hi = hiPool[h%31]
	} else {
		hi = newRand("bth", h%31).Uint64() >> 48
		if hs < len(hiPool) {
			hi = hiPool[h%hs]
		}
	}
	if ls < len(loPool) {
		lo = loPool[(l%ls)*5]
	} else if l%4 == 0 {
		lo = loPool[l/4%ls]
	} else {
		lo = uint64(l) * 0x9e3779b97f4a7c15 >> 16
	}
	return hi<<48 | lo&mask48
}

func btVal(v int) int64 {
	v = abs(v)
	switch v % 7 {
	case 0:
		return 0
	case 1:
		return int64(mask48)
	case 2:
		return 1 << uint(v/7%48)
	}
	return int64(newRand("btv", v).Uint64() & mask48)
}

type orderedModel struct {
	m      map[uint64]int64
	sorted []uint64
	dirty  bool
}

func (o *orderedModel) keys() []uint64 {
	if o.dirty || o.sorted == nil {
		o.sorted = make([]uint64, 0, len(o.m))
		for k := range o.m {
			o.sorted = append(o.sorted, k)
		}
		sort.Slice(o.sorted, func(i, j int) bool { return o.sorted[i] < o.sorted[j] })
		o.dirty = false
	}
	return o.sorted
}
func (o *orderedModel) set(k uint64, v int64) {
	if _, ok := o.m[k]; !ok {
		o.dirty = true
	}
	o.m[k] = v
}
func (o *orderedModel) del(k uint64) {
	if _, ok := o.m[k]; ok {
		o.dirty = true
	}
	delete(o.m, k)
}

// lower bound index
func (o *orderedModel) lb(k uint64) int {
	ks := o.keys()
	return sort.Search(len(ks), func(i int) bool { return ks[i] >= k })
}

func checkForward(tree *b.Tree, o *orderedModel, k uint64, n int) {
	e, eq := tree.Seek(k)
	defer e.Close()
	_, want := o.m[k]
	if eq != want {
		failf("seek %016x reports equality %v, but the key is present: %v", k, eq, want)
	}
	checkNext(e, o, o.lb(k), n)
}

func checkNext(e *b.Enumerator, o *orderedModel, i, n int) {
	ks := o.keys()
	ends := 0
	for j := 0; j < n; j++ {
		gk, gv, err := e.Next()
		if i >= len(ks) {
			if err != io.EOF {
				failf("forward step %d returns %016x, want the end", j, gk)
			}
			if ends++; ends > 2 { // asking again still answers the end
				return
			}
			continue
		}
		if err != nil || gk != ks[i] || gv != o.m[ks[i]] {
			failf("forward step %d returns %016x=%d err=%v, want %016x=%d", j, gk, gv, err, ks[i], o.m[ks[i]])
		}
		i++
	}
}

func checkBackward(tree *b.Tree, o *orderedModel, k uint64, n int) {
	e, eq := tree.Seek(k)
	defer e.Close()
	_, want := o.m[k]
	if eq != want {
		failf("seek %016x reports equality %v, but the key is present: %v", k, eq, want)
	}
	ks := o.keys()
	i := o.lb(k)
	if !want {
		i--
	}
	ends := 0
	for j := 0; j < n; j++ {
		gk, gv, err := e.Prev()
		if i < 0 {
			if err != io.EOF {
				failf("backward step %d from %016x returns %016x, want the end", j, k, gk)
			}
			if ends++; ends > 2 {
				return
			}
			continue
		}
		if err != nil || gk != ks[i] || gv != o.m[ks[i]] {
			failf("backward step %d from %016x returns %016x=%d err=%v, want %016x=%d", j, k, gk, gv, err, ks[i], o.m[ks[i]])
		}
		i--
	}
}

func runI01(cs interface{}, env *Env) {
	c := cs.(*BCase)
	tree := b.TreeNew()
	defer tree.Close()
	o := &orderedModel{m: map[uint64]int64{}}
	full := func() {
		if tree.Len() != len(o.m) {
			failf("length is %d, want %d", tree.Len(), len(o.m))
		}
		e, err := tree.SeekFirst()
		if (err == nil) != (len(o.m) > 0) {
			failf("SeekFirst returns error %v with %d keys", err, len(o.m))
		}
		checkNext(e, o, 0, len(o.m)+2)
		e.Close()
		checkForward(tree, o, 0, len(o.m)+2)
		checkBackward(tree, o, ^uint64(0), len(o.m)+2)
		for k, v := range o.m {
			if g, ok := tree.Get(k); !ok || g != v {
				failf("get %016x returns %d,%v, want %d", k, g, ok, v)
			}
		}
	}
	maxLen, seeks := 0, 0
	for _, op := range c.Ops {
		k := btKey(c.Prof, op.H, op.L)
		v := btVal(op.V)
		old, have := o.m[k]
		switch abs(op.T) % 11 {
		case 0:
			tree.Set(k, v)
			o.set(k, v)
		case 1:
			g, ok := tree.PutNewAndGetOld(k, v)
			if ok != have || have && g != old {
				failf("put-and-get-old of %016x returns %d,%v, want %d,%v", k, g, ok, old, have)
			}
			o.set(k, v)
		case 2:
			tree.Delete(k)
			o.del(k)
		case 3:
			g, ok := tree.Get(k)
			if ok != have || have && g != old {
				failf("get %016x returns %d,%v, want %d,%v", k, g, ok, old, have)
			}
		case 4:
			seeks++
			if op.N%3 == 1 {
				k++
			}
			checkForward(tree, o, k, abs(op.N)%40)
		case 5:
			seeks++
			if op.N%3 == 1 {
				k--
			}
			checkBackward(tree, o, k, abs(op.N)%40)
		case 6:
			e, err := tree.SeekFirst()
			if (err == nil) != (len(o.m) > 0) {
				failf("SeekFirst returns error %v with %d keys", err, len(o.m))
			}
			if err == nil {
				checkNext(e, o, 0, abs(op.N)%40)
			}
			e.Close()
		case 7, 8:
			n := abs(op.N) % 5000
			for i := 0; i < n; i++ {
				j := i
				if op.S%2 == 1 {
					j = n - i
				} else if op.S%3 == 2 {
					j = i * 7919 % n
				}
				k := btKey(c.Prof, op.H+j*(op.S%5), op.L+j)
				if abs(op.T)%11 == 7 {
					v := btVal(op.V + j)
					tree.Set(k, v)
					o.set(k, v)
				} else {
					tree.Delete(k)
					o.del(k)
				}
			}
		case 9:
			g := 2 + abs(op.S)%7
			n := abs(op.N) % 500
			type kv struct {
				k uint64
				v int64
			}
			lists := make([][]kv, g)
			for t := 0; t < g; t++ {
				r := newRand("btpar", op.S, t)
				for i := 0; i < n; i++ {
					x := kv{uint64(t+16*r.Intn(4))<<48 | uint64(r.Intn(n)), int64(r.Intn(1000)) - 300}
					lists[t] = append(lists[t], x)
				}
			}
			par(g, func(t int) {
				for _, x := range lists[t] {
					if x.v < 0 {
						tree.Delete(x.k)
					} else {
						tree.Set(x.k, x.v)
					}
				}
			})
			for _, l := range lists {
				for _, x := range l {
					if x.v < 0 {
						o.del(x.k)
					} else {
						o.set(x.k, x.v)
					}
				}
			}
			env.Label("parallel")
		case 10:
			full()
		}
		if tree.Len() != len(o.m) {
			failf("length is %d, want %d", tree.Len(), len(o.m))
		}
		if len(o.m) > maxLen {
			maxLen = len(o.m)
		}
	}
	full()
	if maxLen >= 3 && seeks > 0 {
		env.Nontrivial()
	}
	if maxLen > 100 {
		env.Label("many keys")
	}
	slots := map[uint64]bool{}
	lows := map[uint64]bool{}
	for k := range o.m {
		slots[k>>48] = true
		lows[k&mask48] = true
	}
	if len(lows) < len(o.m) {
		env.Label("keys with equal trailing 48 bits at the end")
	}
	if len(slots) > 1 && len(slots) < len(o.m) {
		env.Label("keys with equal leading 16 bits at the end")
	}
}

func genI01(r *Rand) *BCase {
	c := &BCase{Prof: r.Intn(5)}
	n := []int{6, 25, 80, 250}[r.Intn(4)]
	u := []int{3, 8, 30, 200}[r.Intn(4)]
	for i := 0; i < n; i++ {
		op := BOp{H: r.Intn(u), L: r.Intn(u), V: r.Intn(1 << 16), N: r.Intn(40)}
		x := r.Intn(100)
		switch {
		case x < 25:
			op.T = 0
		case x < 35:
			op.T = 1
		case x < 52:
			op.T = 2
		case x < 62:
			op.T = 3
		case x < 76:
			op.T = 4
		case x < 90:
			op.T = 5
		case x < 93:
			op.T = 6
		case x < 95:
			op.T, op.N, op.S = 7, r.Intn(3000), r.Intn(30)
			op.N = []int{30, 200, op.N}[r.Intn(3)]
		case x < 97:
			op.T, op.N, op.S = 8, []int{30, 200, 2000}[r.Intn(3)], r.Intn(30)
		case x < 98:
			op.T, op.N, op.S = 9, r.Intn(500), r.Intn(1000)
		default:
			op.T = 10
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

// ---- index tree ----

// IOp: T 0 write session, 1 reads, 2 forward range, 3 backward range, 4 rebuild, 5 reopen, 6 other records, 7 queries at heights
type IOp struct {
	T int      `json:"t"`
	W [][3]int `json:"w,omitempty"` // {key, action, value}
	H int      `json:"h,omitempty"`
	A int      `json:"a,omitempty"`
	B int      `json:"b,omitempty"`
}

type ICase struct {
	Prof int
	Ops  []IOp
}

type iVersion struct {
	h    int64
	v    int64
	live bool
}

func idxKey(prof, i int) uint64 { return btKey(prof, i%17, i/3) }

func testKVOpts() *gorocksdb.Options {
	o := gorocksdb.NewDefaultOptions()
	o.SetCreateIfMissing(true)
	o.SetWriteBufferSize(1 << 20)
	return o
}

func openKV(dir string) *indextree.RocksDB {
	db, err := indextree.NewRocksDBWithOptions("kv", dir, testKVOpts())
	if err != nil {
		infraf("cannot open rocksdb: %v", err)
	}
	return db.(*indextree.RocksDB)
}

func runI02(cs interface{}, env *Env) {
	c := cs.(*ICase)
	dir := env.TempDir("idx")
	if err := os.MkdirAll(dir, 0700); err != nil {
		infraf("%v", err)
	}
	db := openKV(dir)
	tree := indextree.NewNVTreeMem(db)
	hist := map[uint64][]iVersion{}
	o := &orderedModel{m: map[uint64]int64{}}
	other := map[string]string{}
	height := int64(0)
	sessions, rebuilds := 0, 0
	at := func(k uint64, h int64) (int64, bool) {
		l := hist[k]
		for i := len(l) - 1; i >= 0; i-- {
			if l[i].h <= h {
				return l[i].v, l[i].live
			}
		}
		return 0, false
	}
	walk := func(start, end uint64, rev bool) {
		ks := o.keys()
		lo, hi := o.lb(start), o.lb(end)
		if lo > hi {
			lo = hi
		}
		want := append([]uint64{}, ks[lo:hi]...)
		var it indextree.Iterator
		if rev {
			for i, j := 0, len(want)-1; i < j; i, j = i+1, j-1 {
				want[i], want[j] = want[j], want[i]
			}
			it = tree.ReverseIterator(be(start), be(end))
		} else {
			it = tree.Iterator(be(start), be(end))
		}
		defer it.Close()
		for i, k := range want {
			if !it.Valid() {
				failf("range [%016x,%016x) reverse=%v ends after %d of %d keys", start, end, rev, i, len(want))
			}
			if !bytes.Equal(it.Key(), be(k)) || it.Value() != o.m[k] {
				failf("range [%016x,%016x) reverse=%v: item %d is %x=%d, want %016x=%d", start, end, rev, i, it.Key(), it.Value(), k, o.m[k])
			}
			it.Next()
		}
		if it.Valid() {
			failf("range [%016x,%016x) reverse=%v returns %x after its %d keys", start, end, rev, it.Key(), len(want))
		}
		if start < end {
			it.Next()
			if it.Valid() {
				failf("range [%016x,%016x) reverse=%v becomes valid again", start, end, rev)
			}
		}
	}
	full := func() {
		if tree.ActiveCount() != len(o.m) {
			failf("active count is %d, want %d", tree.ActiveCount(), len(o.m))
		}
		walk(0, ^uint64(0), false)
		walk(0, ^uint64(0), true)
		for k := range hist {
			v, ok := tree.Get(be(k))
			w, have := o.m[k]
			if ok != have || ok && v != w {
				failf("get %016x returns %d,%v, want %d,%v", k, v, ok, w, have)
			}
		}
	}
	for _, op := range c.Ops {
		switch abs(op.T) % 8 {
		case 0:
			height += 1 + int64(abs(op.H))
			db.OpenNewBatch()
			tree.BeginWrite(height)
			for _, w := range op.W {
				k := idxKey(c.Prof, abs(w[0]))
				_, have := o.m[k]
				ver := iVersion{h: height}
				if abs(w[1])%4 == 3 {
					if !have {
						continue
					}
					tree.Delete(be(k))
					o.del(k)
				} else {
					ver.v, ver.live = btVal(w[2]), true
					tree.Set(be(k), ver.v)
					o.set(k, ver.v)
				}
				l := hist[k]
				if n := len(l); n > 0 && l[n-1].h == height {
					l = l[:n-1]
				}
				hist[k] = append(l, ver)
			}
			tree.EndWrite()
			db.CloseOldBatch()
			sessions++
		case 1:
			for j := 0; j < 5; j++ {
				k := idxKey(c.Prof, abs(op.A)+j)
				v, ok := tree.Get(be(k))
				w, have := o.m[k]
				if ok != have || ok && v != w {
					failf("get %016x returns %d,%v, want %d,%v", k, v, ok, w, have)
				}
			}
		case 2, 3:
			start, end := idxKey(c.Prof, abs(op.A)), idxKey(c.Prof, abs(op.B))
			if op.H%3 == 1 {
				end++
			}
			if op.H%5 == 1 {
				start++
			}
			walk(start, end, abs(op.T)%8 == 3)
		case 4, 5:
			tree.Close()
			if abs(op.T)%8 == 5 {
				db.Close()
				db = openKV(dir)
			}
			tree = indextree.NewNVTreeMem(db)
			n := 0
			if err := tree.Init(func([]byte) {
				n++
			}); err != nil {
				failf("rebuilding fails: %v", err)
			}
			rebuilds++
			full()
		case 6:
			db.OpenNewBatch()
			for j := 0; j <= abs(op.A)%4; j++ {
				r := newRand("other", op.B, j)
				k := append([]byte{byte(1 + r.Intn(255))}, r.Bytes(r.Intn(20))...)
				v := r.Bytes(r.Intn(12))
				if r.Chance(30) {
					k[0] = byte(0x10 + r.Intn(10))
				}
				db.CurrBatch().Set(k, v)
				other[string(k)] = string(v)
			}
			db.CloseOldBatch()
			env.Label("other records")
		case 7:
			for j := 0; j < 12; j++ {
				k := idxKey(c.Prof, abs(op.A)+j)
				h := int64(abs(op.B)+j*7) % (height + 3)
				if l := hist[k]; len(l) > 0 && j%2 == 0 {
					h = l[(abs(op.B)+j)%len(l)].h + int64(j%3) - 1
				}
				if h < 0 {
					h = 0
				}
				v, ok := tree.GetAtHeight(be(k), uint64(h))
				w, have := at(k, h)
				if ok != have || ok && v != w {
					failf("get %016x at height %d returns %d,%v, want %d,%v", k, h, v, ok, w, have)
				}
			}
		}
		if tree.ActiveCount() != len(o.m) {
			failf("active count is %d, want %d", tree.ActiveCount(), len(o.m))
		}
	}
	full()
	for k, v := range other {
		if g := db.Get([]byte(k)); string(g) != v {
			failf("another record %x reads %x, want %x", k, g, v)
		}
	}
	tree.Close()
	db.Close()
	if sessions >= 2 && len(hist) >= 3 {
		env.Nontrivial()
	}
	if rebuilds > 0 && len(other) > 0 {
		env.Label("rebuilt with other records present")
	}
	if len(hist) > len(o.m) {
		env.Label("with deleted keys")
	}
}

func genI02(r *Rand) *ICase {
	c := &ICase{Prof: r.Intn(5)}
	uni := []int{4, 12, 50, 300}[r.Intn(4)]
	n := 3 + r.Intn(25)
	for i := 0; i < n; i++ {
		op := IOp{A: r.Intn(uni), B: r.Intn(uni)}
		x := r.Intn(100)
		switch {
		case x < 45 || i == 0:
			op.T = 0
			op.H = []int{0, 0, 0, 1, 5, 254, 255, 65535, 1 << 31}[r.Intn(9)]
			for j := 0; j < r.Range(1, []int{3, 20, 150}[r.Intn(3)]); j++ {
				op.W = append(op.W, [3]int{r.Intn(uni), r.Intn(4), r.Intn(1 << 16)})
			}
		case x < 52:
			op.T = 1
		case x < 64:
			op.T, op.H = 2, r.Intn(30)
		case x < 76:
			op.T, op.H = 3, r.Intn(30)
		case x < 82:
			op.T = 4
		case x < 84:
			op.T = 5
		case x < 90:
			op.T, op.B = 6, r.Intn(1000)
		default:
			op.T, op.B = 7, r.Intn(1000)
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

// ---- key-value wrapper ----

// KOp: T 0 put, 1 put sync, 2 delete, 3 delete sync, 4 get/has, 5 batch, 6 iterate, 7 reopen, 8 copy of the directory opened, 9 block batch, 10 prune and compact
type KOp struct {
	T int      `json:"t"`
	K int      `json:"k,omitempty"`
	V int      `json:"v,omitempty"`
	W [][3]int `json:"w,omitempty"`
	A int      `json:"a,omitempty"`
	B int      `json:"b,omitempty"`
	N int      `json:"n,omitempty"`
}

type KCase struct {
	Uni int
	Ops []KOp
}

func kvKey(uni, i int) []byte {
	i = abs(i)
	r := newRand("kvk", uni, i)
	first := []byte{1, 0x10, 0x11, 0x19, 0x7f, 0x80, 0xff, byte(1 + r.Intn(255))}
	k := []byte{first[r.Intn(len(first))]}
	switch i % 6 {
	case 0: // short
	case 1: // a prefix family
		k = append([]byte{0x10}, bytes.Repeat([]byte{0}, i/6%5)...)
	case 2:
		k = append([]byte{0xff}, bytes.Repeat([]byte{0xff}, i/6%5)...)
	case 3: // shaped like a versioned record of a great height
		k = append([]byte{0}, r.Bytes(8)...)
		k = append(k, be(1<<40+uint64(r.Intn(4)))...)
	case 4:
		k = append(k, r.Bytes(1+r.Intn(3))...)
		k[1] &= 1
	default:
		k = append(k, r.Bytes(r.Intn(40))...)
	}
	return k
}

func kvVal(v int) []byte {
	v = abs(v)
	r := newRand("kvv", v)
	switch v % 6 {
	case 0:
		return []byte{}
	case 1:
		return r.Bytes(1)
	case 2:
		return r.Bytes(3000)
	}
	return r.Bytes(r.Intn(40))
}

// keptBytes remembers slices that were handed out, with what they contained.
type keptBytes struct {
	s [][]byte
	c []string
}

func (kb *keptBytes) add(b []byte) {
	if len(kb.s) < 64 {
		kb.s, kb.c = append(kb.s, b), append(kb.c, string(b))
	}
}

func (kb *keptBytes) check() {
	for i, b := range kb.s {
		if string(b) != kb.c[i] {
			failf("bytes that were returned earlier were %s and are now %s", hx([]byte(kb.c[i])), hx(b))
		}
	}
	kb.s, kb.c = kb.s[:0], kb.c[:0]
}

func runI03(cs interface{}, env *Env) {
	c := cs.(*KCase)
	dir := env.TempDir("kv")
	if err := os.MkdirAll(dir, 0700); err != nil {
		infraf("%v", err)
	}
	db := openKV(dir)
	m := map[string]string{}
	batches, iters := 0, 0
	var keep keptBytes
	sortedM := func() []string {
		ks := make([]string, 0, len(m))
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		return ks
	}
	iterate := func(d *indextree.RocksDB, start, end []byte, rev bool) {
		var want []string
		for _, k := range sortedM() {
			if (start == nil || k >= string(start)) && (end == nil || k < string(end)) {
				want = append(want, k)
			}
		}
		var it types.Iterator
		if rev {
			for i, j := 0, len(want)-1; i < j; i, j = i+1, j-1 {
				want[i], want[j] = want[j], want[i]
			}
			it = d.ReverseIterator(start, end)
		} else {
			it = d.Iterator(start, end)
		}
		defer it.Close()
		desc := "iteration [" + rangeEnd(start) + "," + rangeEnd(end) + ")"
		for i, k := range want {
			if !it.Valid() {
				failf("%s reverse=%v ends after %d of %d keys", desc, rev, i, len(want))
			}
			gk, gv := it.Key(), it.Value()
			keep.add(gk)
			keep.add(gv)
			if string(gk) != k || string(gv) != m[k] {
				failf("%s reverse=%v: item %d is %s=%s, want %s=%s", desc, rev, i, hx(it.Key()), hx(it.Value()), hx([]byte(k)), hx([]byte(m[k])))
			}
			it.Next()
		}
		if it.Valid() {
			failf("%s reverse=%v returns %s after its %d keys", desc, rev, hx(it.Key()), len(want))
		}
		if it.Valid() {
			failf("%s becomes valid again", desc)
		}
	}
	get := func(k []byte) {
		g := db.Get(k)
		keep.add(g)
		w, have := m[string(k)]
		if (g != nil) != have || have && string(g) != w {
			failf("get %s returns %s (present %v), want %s (present %v)", hx(k), hx(g), g != nil, hx([]byte(w)), have)
		}
		if db.Has(k) != have {
			failf("has %s returns %v, want %v", hx(k), !have, have)
		}
	}
	bound := func(i int) []byte {
		if i%7 == 0 {
			return nil
		}
		k := kvKey(c.Uni, i)
		switch i % 5 {
		case 0:
			return []byte{}
		case 1:
			return append(k, 0)
		case 2:
			return k[:len(k)-1+i%2]
		}
		return k
	}
	full := func() {
		iterate(db, nil, nil, false)
		iterate(db, nil, nil, true)
		for k := range m {
			get([]byte(k))
		}
	}
	apply := func(bt types.Batch, ws [][3]int) func() {
		type ch struct {
			k, v string
			del  bool
		}
		var cs []ch
		for _, w := range ws {
			k := kvKey(c.Uni, w[0])
			if abs(w[1])%3 == 2 {
				bt.Delete(k)
				cs = append(cs, ch{string(k), "", true})
			} else {
				v := kvVal(w[2])
				bt.Set(k, v)
				cs = append(cs, ch{string(k), string(v), false})
				for i := range v { // the caller may reuse its slices
					v[i] ^= 0xff
				}
			}
			for i := range k {
				k[i] ^= 0xff
			}
		}
		return func() {
			for _, x := range cs {
				if x.del {
					delete(m, x.k)
				} else {
					m[x.k] = x.v
				}
			}
		}
	}
	for _, op := range c.Ops {
		keep.check()
		k := kvKey(c.Uni, op.K)
		switch abs(op.T) % 11 {
		case 0, 1:
			v := kvVal(op.V)
			m[string(k)] = string(v)
			if abs(op.T)%11 == 0 {
				db.Set(k, v)
			} else {
				db.SetSync(k, v)
			}
		case 2:
			db.Delete(k)
			delete(m, string(k))
		case 3:
			db.DeleteSync(k)
			delete(m, string(k))
		case 4:
			get(k)
		case 5:
			bt := db.NewBatch()
			commit := apply(bt, op.W)
			full()
			switch abs(op.N) % 3 {
			case 0:
				bt.Write()
				commit()
			case 1:
				bt.WriteSync()
				commit()
			}
			bt.Close()
			batches++
		case 6:
			iters++
			iterate(db, bound(abs(op.A)), bound(abs(op.B)), op.N%2 == 1)
		case 7:
			db.Close()
			db = openKV(dir)
			full()
		case 8:
			cp := env.TempDir("copy")
			if out, err := exec.Command("cp", "-r", dir, cp).CombinedOutput(); err != nil {
				infraf("cp: %v %s", err, out)
			}
			_ = os.Remove(filepath.Join(cp, "kv.db", "LOCK"))
			d2 := openKV(cp)
			iterate(d2, nil, nil, false)
			d2.Close()
			os.RemoveAll(cp)
			env.Label("opened after a stop without close")
		case 9:
			db.OpenNewBatch()
			db.LockBatch()
			commit := apply(db.CurrBatch(), op.W)
			db.UnlockBatch()
			full()
			db.CloseOldBatch()
			commit()
			batches++
		case 10:
			// old versioned records may go, nothing else
			db.SetPruneHeight(uint64(abs(op.N)%(1<<30)) + 1)
			db.DB().CompactRange(gorocksdb.Range{})
			env.Label("prune height set and compacted")
		}
	}
	full()
	db.Close()
	db = openKV(dir)
	full()
	db.Close()
	keep.check()
	if len(c.Ops) >= 4 && batches > 0 && iters > 0 {
		env.Nontrivial()
	}
}

func rangeEnd(b []byte) string {
	if b == nil {
		return "nil"
	}
	return hx(b)
}

func genI03(r *Rand) *KCase {
	c := &KCase{Uni: r.Intn(1000)}
	uni := []int{6, 20, 80}[r.Intn(3)]
	for i := 0; i < 3+r.Intn(40); i++ {
		op := KOp{K: r.Intn(uni), V: r.Intn(1 << 12), A: r.Intn(uni * 2), B: r.Intn(uni * 2), N: r.Intn(100)}
		x := r.Intn(100)
		switch {
		case x < 22:
			op.T = r.Intn(2)
		case x < 30:
			op.T = 2 + r.Intn(2)
		case x < 36:
			op.T = 4
		case x < 54:
			op.T = []int{5, 5, 9}[r.Intn(3)]
			for j := 0; j < r.Range(0, 12); j++ {
				op.W = append(op.W, [3]int{r.Intn(uni), r.Intn(3), r.Intn(1 << 12)})
			}
		case x < 92:
			op.T = 6
		case x < 96:
			op.T = 7
		case x < 98:
			op.T = 8
		default:
			op.T, op.N = 10, r.Intn(1<<30)
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

// ---- metadata ----

// NOp: T 0 entry file size, 1 twig file size, 2 root hash, 3 serial numbers, 4 oldest twig, 5 last pruned twig, 6 edge nodes, 7 delete twig height, 8 block height,
// 9 commit and write the batch, 10 reload without commit, 11 reload into a new object after reopening, 12 read everything
type NOp struct {
	T int `json:"t"`
	S int `json:"s,omitempty"` // shard
	V int `json:"v,omitempty"`
	N int `json:"n,omitempty"`
}

type NCase struct{ Ops []NOp }

type metaState struct {
	height                int64
	pruned, sn, oldest    [8]int64
	root                  [8][32]byte
	twigSize, entrySize   [8]int64
	edge                  [8][]byte
	haveEdge              [8]bool
	heights               [8]map[int64]int64
	heightsPend, heights2 int
}

func (a *metaState) clone() *metaState {
	n := *a
	for i := range n.heights {
		n.heights[i] = map[int64]int64{}
		for k, v := range a.heights[i] {
			n.heights[i][k] = v
		}
	}
	return &n
}

func runM01(cs interface{}, env *Env) {
	c := cs.(*NCase)
	dir := env.TempDir("meta")
	if err := os.MkdirAll(dir, 0700); err != nil {
		infraf("%v", err)
	}
	db := openKV(dir)
	meta := metadb.NewMetaDB(db)
	mem := &metaState{} // as set
	for i := range mem.heights {
		mem.heights[i] = map[int64]int64{}
		mem.pruned[i] = -1
	}
	db.OpenNewBatch()
	meta.ReloadFromKVDB()
	meta.Init()
	db.CloseOldBatch()
	db.OpenNewBatch()
	disk := mem.clone() // as last committed
	cmp := func() {
		// values kept in memory answer at once, values kept in the database when the batch is written
		if meta.GetCurrHeight() != mem.height {
			failf("height is %d, want %d", meta.GetCurrHeight(), mem.height)
		}
		for i := 0; i < 8; i++ {
			if g := meta.GetLastPrunedTwig(i); g != mem.pruned[i] {
				failf("shard %d: last pruned twig is %d, want %d", i, g, mem.pruned[i])
			}
			if g := meta.GetMaxSerialNum(i); g != mem.sn[i] {
				failf("shard %d: serial number counter is %d, want %d", i, g, mem.sn[i])
			}
			if g := meta.GetYoungestTwigID(i); g != mem.sn[i]/2048 {
				failf("shard %d: youngest twig is %d, want %d", i, g, mem.sn[i]/2048)
			}
			if g := meta.GetOldestActiveTwigID(i); g != mem.oldest[i] {
				failf("shard %d: oldest active twig is %d, want %d", i, g, mem.oldest[i])
			}
			if g := meta.GetRootHash(i); g != mem.root[i] {
				failf("shard %d: root hash is %x, want %x", i, g, mem.root[i])
			}
			if g := meta.GetTwigMtFileSize(i); g != disk.twigSize[i] {
				failf("shard %d: twig file size is %d, want %d", i, g, disk.twigSize[i])
			}
			if g := meta.GetEntryFileSize(i); g != disk.entrySize[i] {
				failf("shard %d: entry file size is %d, want %d", i, g, disk.entrySize[i])
			}
			if g := meta.GetEdgeNodes(i); (g != nil) != disk.haveEdge[i] || !bytes.Equal(g, disk.edge[i]) {
				failf("shard %d: edge nodes are %s, want %s", i, hx(g), hx(disk.edge[i]))
			}
			top := mem.sn[i]/2048 + 3
			for t := int64(0); t <= top; t++ {
				w, ok := disk.heights[i][t]
				if !ok {
					w = -1
				}
				if g := meta.GetTwigHeight(i, t); g != w {
					failf("shard %d: height of twig %d is %d, want %d", i, t, g, w)
				}
			}
		}
	}
	commits, reloads := 0, 0
	for _, op := range c.Ops {
		s := abs(op.S) % 8
		r := newRand("meta", op.V)
		v := int64(r.Uint64() >> uint(1+r.Intn(60)))
		switch abs(op.T) % 13 {
		case 0:
			meta.SetEntryFileSize(s, v)
			mem.entrySize[s] = v
		case 1:
			meta.SetTwigMtFileSize(s, v)
			mem.twigSize[s] = v
		case 2:
			var h [32]byte
			r.Read(h[:])
			meta.SetRootHash(s, h)
			mem.root[s] = h
		case 3:
			n := []int{1, 2, 100, 2047, 2048, 2049, 4097}[abs(op.N)%7]
			for i := 0; i < n; i++ {
				meta.IncrMaxSerialNum(s)
				mem.sn[s]++
				if mem.sn[s]%2048 == 0 {
					mem.heights[s][mem.sn[s]/2048] = mem.height
				}
			}
		case 4:
			meta.IncrOldestActiveTwigID(s)
			mem.oldest[s]++
		case 5:
			meta.SetLastPrunedTwig(s, v)
			mem.pruned[s] = v
		case 6:
			e := r.Bytes(abs(op.N) % 400)
			meta.SetEdgeNodes(s, e)
			mem.edge[s], mem.haveEdge[s] = append([]byte{}, e...), true
		case 7:
			t := int64(abs(op.N)) % (mem.sn[s]/2048 + 2)
			meta.DeleteTwigHeight(s, t)
			delete(mem.heights[s], t)
		case 8:
			meta.SetCurrHeight(v)
			mem.height = v
		case 9:
			meta.Commit()
			if op.V%4 == 0 { // twice into one batch
				meta.Commit()
			}
			db.CloseOldBatch()
			db.OpenNewBatch()
			disk = mem.clone()
			commits++
			cmp()
			if op.N%2 == 0 {
				meta.ReloadFromKVDB()
				cmp()
			}
		case 10, 11:
			if op.N%3 == 0 {
				meta.Commit() // into a batch which is never written
				env.Label("committed batch dropped")
			}
			db.CurrBatch().Close()
			if abs(op.T)%13 == 11 {
				db.Close()
				db = openKV(dir)
				meta = metadb.NewMetaDB(db)
			} else if op.N%2 == 0 {
				meta = metadb.NewMetaDB(db)
			} else {
				env.Label("reload in place")
			}
			meta.ReloadFromKVDB()
			db.OpenNewBatch()
			mem = disk.clone()
			reloads++
			cmp()
		case 12:
			cmp()
		}
	}
	meta.Commit()
	db.CloseOldBatch()
	disk = mem.clone()
	db.Close()
	db = openKV(dir)
	meta = metadb.NewMetaDB(db)
	meta.ReloadFromKVDB()
	cmp()
	db.Close()
	if commits > 0 && reloads > 0 {
		env.Nontrivial()
	}
	if commits > 1 {
		env.Label("several commits")
	}
}

func genM01(r *Rand) *NCase {
	c := &NCase{}
	few := r.Chance(40) // the same values again and again
	for i := 0; i < 4+r.Intn(60); i++ {
		op := NOp{S: r.Intn(8), V: r.Intn(1 << 20), N: r.Intn(1000)}
		if few {
			op.S, op.V = r.Intn(2), r.Intn(3)
		}
		x := r.Intn(100)
		switch {
		case x < 70:
			op.T = r.Intn(9)
		case x < 84:
			op.T = 9
		case x < 91:
			op.T = 10
		case x < 95:
			op.T = 11
		default:
			op.T = 12
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func init() {
	kvAssume := []string{"RocksDB itself and the operating system behave as documented"}
	register(&Check{
		ID: "I01", Quick: 10000, Thorough: 400000, PerProc: 100, CPULimit: 40,
		Rule:        "operation sequences (set, put-and-get-old, delete, get, seek forward/backward, bulk and parallel writes) over keys sharing leading or trailing parts, compared with a sorted map after each step; non-trivial: at least three keys at once and one seek",
		Assumptions: []string{"values lie in [0,2^48); an enumerator is moved in one direction only; no writes while an enumerator is open"},
		New:         func() interface{} { return &BCase{} },
		Gen:         func(r *Rand, idx int, thorough bool) interface{} { return genI01(r) },
		Run:         runI01,
	})
	register(&Check{
		ID: "I02", Quick: 4000, Thorough: 150000, CPULimit: 40,
		Rule:        "write sessions at rising heights, reads, range iterations, height queries, rebuilds and reopenings with other records in the database, compared with a versioned map; non-trivial: at least two sessions and three keys",
		Assumptions: append([]string{"heights below 2^63 and values in [0,2^48), as the database uses them"}, kvAssume...),
		New:         func() interface{} { return &ICase{} },
		Gen:         func(r *Rand, idx int, thorough bool) interface{} { return genI02(r) },
		Run:         runI02,
	})
	register(&Check{
		ID: "I03", Quick: 3000, Thorough: 100000,
		Rule:        "puts, deletes, gets, batches (written, synchronously written, discarded), iterations with any bounds, reopenings, opening of a copy taken while open, and compaction after setting a prune height, compared with a sorted byte-string map; non-trivial: at least one batch and one iteration",
		Assumptions: kvAssume,
		New:         func() interface{} { return &KCase{} },
		Gen:         func(r *Rand, idx int, thorough bool) interface{} { return genI03(r) },
		Run:         runI03,
	})
	register(&Check{
		ID: "M01", Quick: 3000, Thorough: 100000,
		Rule:        "sequences of metadata updates per shard, commits, reloads (in place, in a new object, after reopening) with uncommitted updates dropped, compared with a model of the values in memory and on disk; non-trivial: at least one commit and one reload",
		Assumptions: kvAssume,
		New:         func() interface{} { return &NCase{} },
		Gen:         func(r *Rand, idx int, thorough bool) interface{} { return genM01(r) },
		Run:         runM01,
	})
}
