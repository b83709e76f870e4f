package main

/*
#include <malloc.h>
static size_t native_in_use(void) { struct mallinfo2 m = mallinfo2(); return m.uordblks + m.hblkhd; }
*/
import "C"

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"time"

	b "github.com/smartbch/moeingads/indextree/b/cppbtree"
	"github.com/smartbch/moeingads/types"
	"github.com/tecbot/gorocksdb"
)

// Resources: goroutines, file handles, native memory.

type ResCase struct {
	MCase
	K      int // operations per round of reads
	Raw    int // 1: only the B-tree, 2: only the key-value store
	Cycles int // close/reopen cycles at the end
	Per    int // blocks per cycle
}

// adsGoroutines counts the goroutines that run the database's code. The key-value store's own threads call the
// compaction filter in goroutines made by cgo, which are not counted.
func adsGoroutines() (n int, sample string) {
	buf := make([]byte, 1<<20)
	for _, g := range strings.Split(string(buf[:runtime.Stack(buf, true)]), "\n\n") {
		if strings.Contains(g, "github.com/smartbch/moeingads") && !strings.Contains(g, "_cgoexp_") && !strings.Contains(g, "main.run") {
			n++
			sample = g
		}
	}
	return
}

// settled waits until at most max goroutines of the database are left (a goroutine that has signalled that it is done may
// still be about to return).
func settled(pos string, max int, when string) {
	for i := 0; ; i++ {
		n, sample := adsGoroutines()
		if n <= max {
			return
		}
		if i > 400 {
			failf("%s: %d goroutines of the database are running %s (at most %d expected), one of them:\n%s", pos, n, when, max, sample)
		}
		time.Sleep(25 * time.Millisecond)
	}
}

// openHandles lists the open files below a directory.
func openHandles(dir string) (paths []string) {
	ents, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		infraf("%v", err)
	}
	for _, e := range ents {
		if p, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.HasPrefix(p, dir+"/") {
			paths = append(paths, p)
		}
	}
	return
}

func (s *mSess) checkHandles() {
	for _, p := range openHandles(s.dir) {
		rel := strings.TrimPrefix(p, s.dir+"/")
		if strings.HasSuffix(p, " (deleted)") && (strings.HasPrefix(rel, "entries.") || strings.HasPrefix(rel, "twigmt.")) {
			failf("%s: the removed file %s is still open", s.pos, rel)
		}
	}
}

func nativeInUse() int { return int(C.native_in_use()) }

// steady runs f in rounds of k operations and fails if every round, the first one aside, leaves more native memory in use.
func (s *mSess) steady(what string, k, limit int, f func(i int)) {
	steadyMem(s.env, s.pos, what, k, limit, f)
}

func steadyMem(env *Env, pos, what string, k, limit int, f func(i int)) {
	round := func() {
		for i := 0; i < k; i++ {
			f(i)
		}
	}
	round()
	least := 0
	for r := 0; r < 5; r++ {
		before := nativeInUse()
		round()
		g := nativeInUse() - before
		if r == 0 || g < least {
			least = g
		}
		if least <= k*limit {
			env.Label("steady:" + what)
			return
		}
	}
	failf("%s: each of five rounds of %d x %s leaves at least %d bytes of native memory in use", pos, k, what, least)
}

// runRawBT works on a B-tree alone: what is inserted and deleted again, and trees that are closed, leave nothing in use.
func runRawBT(c *ResCase, env *Env) {
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	r := newRand("rawbt", c.Cfg.Seed)
	n := clampInt(c.K, 200, 20000)
	slots := []uint64{1, 3, 60, 65536}[abs(c.Cycles)%4]
	seen := map[uint64]bool{}
	keys := make([]uint64, 0, n)
	for len(keys) < n {
		k := r.Uint64()%slots<<48 | uint64(r.Intn(n*4))
		if !seen[k] {
			seen[k] = true
			keys = append(keys, k)
		}
	}
	perm := func() {
		for i := len(keys) - 1; i > 0; i-- {
			j := r.Intn(i + 1)
			keys[i], keys[j] = keys[j], keys[i]
		}
	}
	keep := n / 10 * (c.Per % 3)
	tree := b.TreeNew()
	fill := func() {
		for i, k := range keys {
			if i%2 == 0 {
				tree.Set(k, int64(i))
			} else {
				tree.PutNewAndGetOld(k, int64(i))
			}
		}
	}
	fill()
	sort.Slice(keys, func(i, j int) bool { return keys[i] < keys[j] })
	kept, rest := keys[:keep], keys[keep:]
	keys = rest
	steadyMem(env, "B-tree", fmt.Sprintf("deleting and inserting %d keys", len(keys)), 4, len(keys)/2, func(i int) {
		if i%2 == 0 {
			perm()
		} else {
			sort.Slice(keys, func(i, j int) bool { return keys[i] < keys[j] })
		}
		for _, k := range keys {
			tree.Delete(k)
		}
		if tree.Len() != len(kept) {
			failf("B-tree: length is %d, want %d", tree.Len(), len(kept))
		}
		if i%4 >= 2 {
			perm()
		}
		fill()
	})
	steadyMem(env, "B-tree", "Get", 2000, 1, func(i int) { tree.Get(keys[i%len(keys)]) })
	steadyMem(env, "B-tree", "iteration", 300, 2, func(i int) {
		from := keys[i%len(keys)] + uint64(i%3)
		if i%5 == 4 {
			from = ^uint64(i % 2) // after the last key, unless that is it
		}
		e, _ := tree.Seek(from)
		for j := 0; j < i%30; j++ {
			var err error
			if i%2 == 0 {
				_, _, err = e.Next()
			} else {
				_, _, err = e.Prev()
			}
			if err != nil {
				break
			}
		}
		e.Close()
	})
	steadyMem(env, "B-tree", fmt.Sprintf("creating, filling (%d keys) and closing", n), 3, 1000, func(i int) {
		tree.Close()
		tree = b.TreeNew()
		fill()
	})
	tree.Close()
	env.Label("raw-btree")
	env.Nontrivial()
}

// runRawKV works on the key-value store alone.
func runRawKV(c *ResCase, env *Env) {
	dir := env.TempDir("kv")
	if err := os.MkdirAll(dir, 0700); err != nil {
		infraf("%v", err)
	}
	db := openKV(dir)
	r := newRand("rawkv", c.Cfg.Seed)
	n := clampInt(c.K/20, 50, 500)
	key := func(i int) []byte { return []byte(fmt.Sprintf("key%04d", i%(n*2))) } // every second key is there
	val := r.Bytes(r.Range(1, 200))
	for i := 0; i < n; i++ {
		if i == n/2 {
			db.SetSync(key(2*i), val)
			db.DB().Flush(gorocksdb.NewDefaultFlushOptions()) // some in a file, some in memory
		}
		db.Set(key(2*i), val)
	}
	steadyMem(env, "key-value store", "Get", 3000, 4, func(i int) { db.Get(key(i)) })
	steadyMem(env, "key-value store", "Has", 3000, 4, func(i int) { db.Has(key(i)) })
	steadyMem(env, "key-value store", "iteration", 200, 20, func(i int) {
		var it types.Iterator
		a, z := key(i), key(i+i%40)
		if i%5 == 0 {
			a = nil
		}
		if i%7 == 0 {
			z = nil
		}
		if i%2 == 0 {
			it = db.Iterator(a, z)
		} else {
			it = db.ReverseIterator(a, z)
		}
		for j := 0; j < i%50 && it.Valid(); j++ {
			it.Key()
			it.Value()
			it.Next()
		}
		it.Close()
	})
	// a batch that is given up, or written without anything in it
	steadyMem(env, "key-value store", "given-up batch", 300, 20, func(i int) {
		bt := db.NewBatch()
		for j := 0; j < i%20; j++ {
			bt.Set(key(i+j), val)
			bt.Delete(key(i - j + 20))
		}
		bt.Close()
	})
	steadyMem(env, "key-value store", "empty batch", 300, 20, func(i int) {
		bt := db.NewBatch()
		if i%2 == 0 {
			bt.Write()
		} else {
			bt.WriteSync()
		}
		bt.Close()
	})
	steadyMem(env, "key-value store", "batch with the same 200 records", 100, 20000, func(i int) {
		bt := db.NewBatch()
		for j := 0; j < 200; j++ {
			bt.Set(key(2*j), val)
		}
		if i%10 != 0 {
			bt.Close()
			return
		}
		bt.Write()
	})
	db.Close()
	if left := openHandles(dir); len(left) > 0 {
		failf("key-value store: %d files are open after closing it: %v", len(left), left)
	}
	env.Label("raw-kv")
	env.Nontrivial()
}

func runR01(cs interface{}, env *Env) {
	c := cs.(*ResCase)
	switch c.Raw {
	case 1:
		runRawBT(c, env)
		return
	case 2:
		runRawKV(c, env)
		return
	}
	k := clampInt(c.K, 200, 20000)
	s := newSess(c.Cfg, mOpts{reads: true, proofs: true, hist: true}, env, filepath.Join(env.Dir, "db"))
	base := -1
	removed := 0
	for i, op := range c.Ops {
		s.pos = fmt.Sprintf("step %d", i)
		n := s.maxFiles
		s.step(op)
		if s.maxFiles != n {
			removed++
		}
		s.checkHandles()
		if base < 0 && op.T == 0 {
			base, _ = adsGoroutines()
		}
	}
	s.pos = "after the history"
	if base < 0 {
		base = 0
	}
	ks := s.keysToCheck(true)
	if len(ks) == 0 {
		ks = []string{s.uni.key(0)}
	}
	key := func(i int) []byte { return []byte(ks[i%len(ks)]) }
	s.steady("GetEntry", k, 12, func(i int) { s.db.GetEntry(key(i)) })
	if c.Cfg.Hist {
		s.steady("GetEntryAtHeight", k/2, 100, func(i int) { s.db.GetEntryAtHeight(key(i), uint64(s.m.height)-uint64(i)%3) })
	}
	s.steady("GetProof", k/20, 100, func(i int) { s.db.GetProof(key(i)) })
	if len(s.m.sorted) < 300 {
		s.steady("ScanAll", k/4, 12, func(i int) { s.db.ScanAll(func(k, v []byte) {}) })
		s.steady("CheckConsistency", k/8, 12, func(i int) { s.db.CheckConsistency() })
	}
	prep, blocks := 0, 0
	s.steady("blocks that prepare 400 absent keys", 1, 400*20, func(i int) {
		var ws []mWrite
		for j := 0; j < 400; j++ {
			prep++
			ws = append(ws, mWrite{s.uni.key(500000 + prep), []int{aPrepUpd, aPrepDel}[j%2], 0})
		}
		s.block(MOp{}, ws)
		blocks++
	})
	for i := 0; i < 45; i++ {
		s.block(MOp{}, []mWrite{{s.uni.key(i), aSet, i}})
	}
	settled(s.pos, base+40, "after 45 blocks")
	s.checkHandles()
	if err := s.closeCheck(); err != "" {
		failf("%s", err)
	}
	if c.Cycles > 0 {
		s.cycles(clampInt(c.Cycles, 8, 100), clampInt(c.Per, 0, 100))
	}
	if s.m.blocks > 45 && len(s.m.sorted) > 0 {
		env.Nontrivial()
	}
	labelSess(s)
}

// closeCheck closes the database and looks for what it leaves.
func (s *mSess) closeCheck() string {
	s.close()
	settled(s.pos, 0, "after closing")
	if left := openHandles(s.dir); len(left) > 0 {
		return fmt.Sprintf("%s: %d files are open after closing the database: %v", s.pos, len(left), left)
	}
	return ""
}

// cycles opens, uses and closes the database again and again. What stays in use of the native memory must not keep growing
// by what a database of this size needs.
func (s *mSess) cycles(n, per int) {
	var use []int
	r := newRand("cycles", s.cfg.Seed)
	for i := 0; i < n; i++ {
		s.pos = fmt.Sprintf("cycle %d", i)
		s.open()
		for j := 0; j < per; j++ {
			var ws []mWrite
			for k := 0; k < 250; k++ {
				ws = append(ws, mWrite{s.uni.key(r.Intn(500)), aSet, r.Intn(1 << 20)})
			}
			s.block(MOp{}, ws)
		}
		if err := s.closeCheck(); err != "" {
			failf("%s", err)
		}
		use = append(use, nativeInUse())
	}
	const skip = 3
	live := len(s.m.sorted)
	grown := (use[n-1] - use[skip]) / (n - 1 - skip)
	s.env.LabelN("cycles", n)
	if s.env.labels["cycle-growth-KB"] < grown/1024 {
		s.env.labels["cycle-growth-KB"] = grown / 1024
	}
	if limit := 150000; grown > limit && live > 10000 {
		failf("%s: native memory in use after closing grows by %d bytes with every reopening of a database of %d keys (more than %d): %v", s.pos, grown, live, limit, use)
	}
}

func init() {
	register(&Check{
		ID: "R01", Quick: 60, Thorough: 2500, PerProc: 6, CPULimit: 200,
		Rule:        "histories with compaction, pruning and reopening; after each step no removed data file is open, after rounds of reads, proofs, scans and prepares native memory is back where it was, the number of goroutines does not grow with the number of blocks, after closing no file of the directory is open and no goroutine is left, and repeated reopening does not add up memory; non-trivial: more than 45 blocks and live keys",
		Assumptions: []string{"native memory is what glibc's allocator has in use; leaks of less than 12 bytes per read or 150 KB per reopening are not seen", "Go's own heap is not judged"},
		New:         func() interface{} { return &ResCase{} },
		Gen: func(r *Rand, idx int, thorough bool) interface{} {
			c := &ResCase{K: r.Range(2000, 6000)}
			c.Cfg = genCfg(r)
			switch {
			case idx%6 == 2:
				c.Raw, c.K, c.Cycles, c.Per = 1, r.Range(300, 9000), r.Intn(4), r.Intn(3)
			case idx%6 == 3 && idx%12 == 3:
				c.Raw = 2
			case idx%6 == 1:
				c.Ops = genChurn(r, &c.Cfg, histGen{reopen: 15, prune: 80}, 4, r.Range(29000, 36000))
			case idx%6 == 4:
				c.Ops = genMediumN(r, histGen{reopen: 10, concurrent: 30}, r.Range(12000, 16000))
				c.Cfg.Prof = 0
				c.Cycles, c.Per = 8+r.Intn(6), r.Intn(2)*12
			case idx%6 == 5:
				c.Ops = genMedium(r, histGen{reopen: 10, prune: 10, concurrent: 30})
			default:
				c.Ops = genSmall(r, histGen{reopen: 10, prune: 10, concurrent: 20}, 12)
			}
			c.Cfg.Hist = r.Chance(60)
			return c
		},
		Run: runR01,
	})
}
