package main

import (
	"bytes"
	"fmt"
	"path/filepath"

	"github.com/smartbch/moeingads/datatree"
	"github.com/smartbch/moeingads/indextree"
	"github.com/smartbch/moeingads/store"
	"github.com/smartbch/moeingads/store/types"
)

// The in-memory stand-ins: X01.

type XCase struct {
	Kind int
	D    *XData  `json:",omitempty"`
	I    *ICase  `json:",omitempty"`
	S    *SCase  `json:",omitempty"`
	M    *MCase  `json:",omitempty"`
	R    []XRoot `json:",omitempty"`
}

type XData struct {
	Val int
	Ops []TOp // T 0 append, 1 block end, 2 evict, 5 deactivate in one twig, 3 read
}

func runXData(c *XData, env *Env) {
	real := datatree.NewEmptyTree(1<<16, 1<<20, mkdir(env.TempDir("real")), "")
	mock := datatree.NewMockDataTree()
	type ent struct {
		rp, mp int64
		e      *datatree.Entry
	}
	var ents []ent
	var active []bool
	flushed, pend, seq := 0, 0, 0
	oldest := int64(0)
	evicted := 0
	last := int64(0)
	add := func(e *datatree.Entry) {
		rp := real.AppendEntry(e)
		x := *e
		mp := mock.AppendEntry(&x)
		ents = append(ents, ent{rp, mp, e})
		active = append(active, string(e.Key) != "dummy")
		pend = 0
		last = e.SerialNum
	}
	mk := func(r *Rand) *datatree.Entry {
		sn := int64(len(ents))
		e := &datatree.Entry{Key: r.Bytes(r.Range(1, 12)), Value: r.Bytes(r.Intn(c.Val + 1)), NextKey: r.Bytes(8), Height: int64(seq), LastHeight: int64(r.Intn(seq + 1)), SerialNum: sn}
		switch r.Intn(30) {
		case 0:
			return datatree.DummyEntry(sn)
		case 1:
			e.Value = append(append(e.Value, magic8...), magic8...)
		case 2:
			e.Key = append([]byte{}, magic8...)
		case 3:
			e.NextKey = append(append([]byte{7}, magic8...), magic8...)
		case 4:
			e.Key = []byte("dummy\x00")
		}
		return e
	}
	deact := func(sn int) {
		if pend >= 200 {
			add(datatree.DummyEntry(int64(len(ents))))
		}
		real.DeactiviateEntry(int64(sn))
		mock.DeactiviateEntry(int64(sn))
		active[sn] = false
		pend++
	}
	endBlock := func() {
		if pend > 0 {
			add(datatree.DummyEntry(int64(len(ents))))
		}
		real.EndBlock()
		real.WaitForFlushing()
		mock.EndBlock()
		mock.WaitForFlushing()
		flushed = len(ents)
		for id := int64(0); id <= last>>11; id++ {
			if a, b := real.TwigCanBePruned(id), mock.TwigCanBePruned(id); a != b {
				failf("twig %d can be pruned: real %v, mock %v", id, a, b)
			}
		}
	}
	check := func(sn int) {
		if a, b := real.GetActiveBit(int64(sn)), mock.GetActiveBit(int64(sn)); a != b || a != active[sn] {
			failf("the active bit of %d: real %v, mock %v, want %v", sn, a, b, active[sn])
		}
		if active[sn] {
			x := ents[sn]
			if sn < flushed {
				sameEntry("the real tree", real.ReadEntry(x.rp), x.e)
			}
			sameEntry("the mock", mock.ReadEntry(x.mp), x.e)
		}
	}
	for i := 0; i < 2048; i++ {
		add(mk(newRand("x0", i, c.Val)))
	}
	endBlock()
	for _, op := range c.Ops {
		seq++
		r := newRand("x", op.S, seq)
		switch abs(op.T) % 7 {
		case 0:
			for i := 0; i < clampInt(op.N, 0, 5000) && len(ents) < 16*2048; i++ {
				if r.Intn(100) < op.P {
					sn := int(oldest)<<11 + r.Intn(len(ents)-int(oldest)<<11)
					if active[sn] {
						deact(sn)
					}
				}
				add(mk(r))
			}
		case 1:
			endBlock()
		case 2:
			if oldest+2 > int64(len(ents))>>11 || flushed < int(oldest+1)<<11 {
				continue
			}
			var a, b [][]byte
			for bz := range real.GetActiveEntriesInTwig(oldest) {
				bz[0] = 0
				a = append(a, bz)
			}
			for bz := range mock.GetActiveEntriesInTwig(oldest) {
				b = append(b, bz)
			}
			if len(a) != len(b) {
				failf("scanning twig %d gives %d entries, the mock gives %d", oldest, len(a), len(b))
			}
			for i := range a {
				if !bytes.Equal(a[i], b[i]) {
					failf("scanning twig %d gives %s as entry %d, the mock gives %s", oldest, hx(a[i]), i, hx(b[i]))
				}
				sn := datatree.ExtractSerialNum(a[i])
				deact(int(sn))
				n := int64(len(ents))
				datatree.UpdateSerialNum(a[i], n)
				datatree.UpdateSerialNum(b[i], n)
				e := *ents[sn].e
				e.SerialNum = n
				ents = append(ents, ent{real.AppendEntryRawBytes(a[i], n), mock.AppendEntryRawBytes(b[i], n), &e})
				active = append(active, true)
				pend, last = 0, n
			}
			real.EvictTwig(oldest)
			mock.EvictTwig(oldest)
			oldest++
			evicted++
			endBlock()
		case 3, 4, 6:
			for i := 0; i < 60; i++ {
				check(int(oldest)<<11 + r.Intn(len(ents)-int(oldest)<<11))
			}
		case 5:
			lo := int(oldest) << 11
			for sn := lo; sn < lo+2048 && sn < len(ents); sn++ {
				if active[sn] && r.Intn(100) < op.P {
					deact(sn)
				}
			}
		}
	}
	endBlock()
	for sn := int(oldest) << 11; sn < len(ents); sn++ {
		check(sn)
	}
	real.Close()
	mock.Close()
	if evicted > 0 {
		env.Nontrivial()
	}
	env.Label("data tree")
}

func runXIndex(c *ICase, env *Env) {
	real := indextree.NewNVTreeMem(nil)
	mock := indextree.NewMockIndexTree()
	defer real.Close()
	defer mock.Close()
	o := &orderedModel{m: map[uint64]int64{}}
	used := map[uint64]bool{}
	height := int64(0)
	list := func(name string, it indextree.Iterator, start, end uint64) (res []string) {
		defer it.Close()
		for n := 0; it.Valid() && n <= len(o.m)+2; n++ {
			res = append(res, fmt.Sprintf("%x=%d", it.Key(), it.Value()))
			it.Next()
		}
		a, b := it.Domain()
		if !bytes.Equal(a, be(start)) || !bytes.Equal(b, be(end)) {
			failf("%s: the domain of an iterator is %x %x, want %016x %016x", name, a, b, start, end)
		}
		return
	}
	walk := func(start, end uint64, rev bool) {
		var a, b []string
		if rev {
			a, b = list("real", real.ReverseIterator(be(start), be(end)), start, end), list("mock", mock.ReverseIterator(be(start), be(end)), start, end)
		} else {
			a, b = list("real", real.Iterator(be(start), be(end)), start, end), list("mock", mock.Iterator(be(start), be(end)), start, end)
		}
		if fmt.Sprint(a) != fmt.Sprint(b) {
			failf("range [%016x,%016x) reverse=%v: real %.300s, mock %.300s", start, end, rev, fmt.Sprint(a), fmt.Sprint(b))
		}
		n := o.lb(end) - o.lb(start)
		if n < 0 {
			n = 0
		}
		if len(b) != n {
			failf("range [%016x,%016x) reverse=%v: the mock gives %d keys, want %d", start, end, rev, len(b), n)
		}
	}
	for _, op := range c.Ops {
		switch abs(op.T) % 8 {
		case 0:
			height += 1 + int64(abs(op.H))
			real.BeginWrite(height)
			mock.BeginWrite(height)
			for _, w := range op.W {
				k := idxKey(c.Prof, abs(w[0]))
				used[k] = true
				if abs(w[1])%4 == 3 {
					if _, have := o.m[k]; have {
						real.Delete(be(k))
						mock.Delete(be(k))
						o.del(k)
					}
				} else {
					v := btVal(w[2])
					real.Set(be(k), v)
					mock.Set(be(k), v)
					o.set(k, v)
				}
			}
			real.EndWrite()
			mock.EndWrite()
		case 2, 3:
			start, end := idxKey(c.Prof, abs(op.A)), idxKey(c.Prof, abs(op.B))
			if op.H%3 == 1 {
				end++
			}
			if op.H%5 == 1 {
				start++
			}
			walk(start, end, abs(op.T)%8 == 3)
			walk(end, start, abs(op.T)%8 == 2)
		}
		if a, b := real.ActiveCount(), mock.ActiveCount(); a != b || a != len(o.m) {
			failf("the active count is %d, in the mock %d, want %d", a, b, len(o.m))
		}
	}
	for k := range used {
		v, ok := real.Get(be(k))
		w, ok2 := mock.Get(be(k))
		if ok != ok2 || ok && v != w {
			failf("get %016x: real %d,%v, mock %d,%v", k, v, ok, w, ok2)
		}
	}
	walk(0, ^uint64(0), false)
	walk(0, ^uint64(0), true)
	if len(o.m) > 2 {
		env.Nontrivial()
	}
	env.Label("index tree")
}

// XRoot is one step on a root store: K 0 update of the root, 1 trunk written back, 2 trunk discarded, 3 nested trunk use
type XRoot struct {
	K int      `json:"k"`
	W [][3]int `json:"w,omitempty"`
}

func runXRoot(c *XCase, env *Env) {
	rc := *c.S
	rc.Mock = false
	a := newSRoot(&rc, env, "db")
	mc := *c.S
	mc.Mock = true
	b := newSRoot(&mc, env, "mock")
	key := func(i int) []byte { return []byte(a.uni.key(i)) }
	seen := map[int]bool{}
	compare := func(at string) {
		for k := range seen {
			x, y := a.root.Get(key(k)), b.root.Get(key(k))
			if !bytes.Equal(x, y) || (x == nil) != (y == nil) {
				failf("%s: key %x reads %s, in the mock %s", at, key(k), hx(x), hx(y))
			}
			if p := b.root.(*store.MockRootStore).Has(key(k)); p != (x != nil) {
				failf("%s: key %x exists in the mock: %v, its value is %s", at, key(k), p, hx(x))
			}
		}
		if n, m := a.root.ActiveCount()-2, b.root.ActiveCount(); n != m {
			failf("%s: %d live keys, in the mock %d", at, n, m)
		}
	}
	for i, op := range c.R {
		at := fmt.Sprintf("step %d", i)
		acts := map[int][]byte{}
		var ks []int
		for _, w := range op.W {
			if _, ok := acts[w[0]]; !ok {
				ks = append(ks, w[0])
			}
			seen[w[0]] = true
			acts[w[0]] = nil
			if abs(w[1])%4 != 3 {
				acts[w[0]] = a.value(w[2])
			}
		}
		for _, s := range []*sRoot{a, b} {
			switch abs(op.K) % 3 {
			case 0:
				for _, k := range ks {
					if acts[k] == nil {
						s.root.PrepareForDeletion(key(k))
					} else {
						s.root.PrepareForUpdate(key(k))
					}
				}
				s.next(0)
				s.root.Update(func(db types.SetDeleter) {
					for _, k := range ks {
						if acts[k] == nil {
							db.Delete(key(k))
						} else {
							db.Set(key(k), acts[k])
						}
					}
				})
			default:
				ts := s.root.GetTrunkStore(10).(*store.TrunkStore)
				for n, k := range ks {
					if acts[k] == nil {
						ts.PrepareForDeletion(key(k))
					} else {
						ts.PrepareForUpdate(key(k))
					}
					if n%3 == 2 || n == len(ks)-1 {
						lo := n - n%3
						ts.Update(func(db types.SetDeleter) {
							for _, k := range ks[lo : n+1] {
								if acts[k] == nil {
									db.Delete(key(k))
								} else {
									db.Set(key(k), acts[k])
								}
							}
						})
					}
				}
				for k := range seen {
					want, ok := acts[k]
					if !ok {
						want = s.root.Get(key(k))
					}
					if got := ts.Get(key(k)); !bytes.Equal(got, want) {
						failf("%s: key %x reads %s through a trunk, want %s (mock: %v)", at, key(k), hx(got), hx(want), s == b)
					}
				}
				s.next(0)
				ts.Close(abs(op.K)%3 == 1)
			}
		}
		compare(at)
	}
	a.root.Close()
	b.root.Close()
	if len(seen) > 2 && len(c.R) > 1 {
		env.Nontrivial()
	}
	env.Label("root store")
}

func runX01(cs interface{}, env *Env) {
	c := cs.(*XCase)
	switch {
	case c.D != nil:
		runXData(c.D, env)
	case c.I != nil:
		runXIndex(c.I, env)
	case c.S != nil && c.Kind == 2:
		runXRoot(c, env)
	case c.S != nil:
		x := *c.S
		x.Mock = true
		if c.Kind == 3 {
			runS01(&x, env)
			env.Label("trunk sessions over the mock root")
		} else {
			runS02(&x, env)
			env.Label("rabbit stores over the mock root")
		}
	case c.M != nil:
		c.M.Cfg.Hist = false
		s := newSess(c.M.Cfg, mOpts{mock: true, reads: true, chain: true, noReopen: true, noPrune: true}, env, filepath.Join(env.Dir, "mock"))
		s.run(c.M.Ops)
		s.verify(true)
		s.close()
		if s.effective > 1 {
			env.Nontrivial()
		}
		env.Label("database of mocks")
		if s.moved > 0 {
			env.Label("database of mocks with compaction")
		}
	}
}

func genX01(r *Rand, idx int, thorough bool) *XCase {
	c := &XCase{Kind: []int{0, 0, 1, 1, 1, 2, 2, 3, 4, 5}[idx%10]}
	switch c.Kind {
	case 0:
		c.D = &XData{Val: []int{0, 20, 200}[r.Intn(3)]}
		for i := 0; i < 4+r.Intn(14); i++ {
			op := TOp{T: []int{0, 0, 0, 1, 2, 2, 3, 5}[r.Intn(8)], S: r.Intn(1 << 20), P: []int{0, 10, 60, 100}[r.Intn(4)]}
			op.N = []int{3, 300, 2047, 2048, 2049, 3000}[r.Intn(6)]
			c.D.Ops = append(c.D.Ops, op)
			if op.T == 0 && r.Chance(50) {
				c.D.Ops = append(c.D.Ops, TOp{T: 1}, TOp{T: 2})
			}
		}
	case 1:
		c.I = genI02(r)
	case 2:
		c.S = genSCfg(r)
		uni := []int{3, 10, 40}[r.Intn(3)]
		for i := 0; i < 2+r.Intn(8); i++ {
			op := XRoot{K: r.Intn(3)}
			for j := 0; j < r.Intn(14); j++ {
				op.W = append(op.W, [3]int{r.Intn(uni), r.Intn(4), r.Intn(1 << 20)})
			}
			c.R = append(c.R, op)
		}
	case 3:
		c.S = genSCfg(r)
		for i := 0; i < 1+r.Intn(8); i++ {
			op := SOp{T: []int{0, 0, 0, 0, 1, 1, 2}[r.Intn(7)], C: r.Chance(75), N: r.Intn(20)}
			op.W = genSWrites(r, r.Intn(25), 20)
			c.S.Ops = append(c.S.Ops, op)
		}
	case 4:
		c.S = genSCfg(r)
		c.S.Limit = r.Intn(4)
		c.S.Ops = genRabbitOps(r, 1+r.Intn(6), []int{3, 10, 16}[r.Intn(3)], false)
	case 5:
		c.M = &MCase{Cfg: genCfg(r)}
		n := []int{5, 30, 200}[r.Intn(3)]
		for i := 0; i < 1+r.Intn(8); i++ {
			c.M.Ops = append(c.M.Ops, MOp{T: 0, W: genWrites(r, r.Range(1, n), n, false), S: r.Intn(100)})
		}
		if r.Chance(15) {
			c.M.Cfg.Reap = 20
			c.M.Ops = append(c.M.Ops, MOp{T: 4, N: r.Range(300, 1500), S: 1}, MOp{T: 3, N: 100 + r.Intn(60), M: 2048, R: 1500, D: 20, S: r.Intn(100)})
		}
	}
	return c
}

func init() {
	register(&Check{
		ID: "X01", Quick: 1000, Thorough: 40000,
		Rule:        "the same operations on a stand-in and on the real part: histories of appends, deactivations, scans and evictions on the data trees; write sessions, lookups and ranges on the index trees; updates and trunk sessions on the root stores; and model-checked trunk, rabbit and whole-database histories (some with compaction) over the stand-ins; non-trivial: a twig was evicted, or several keys or blocks were written",
		Assumptions: []string{"only operations which the stand-ins implement, used as the real ones are; values in root stores are non-empty"},
		New:         func() interface{} { return &XCase{} },
		Gen:         func(r *Rand, idx int, thorough bool) interface{} { return genX01(r, idx, thorough) },
		Run:         runX01,
	})
}
