package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"path/filepath"
	"sort"
	"sync"
	"sync/atomic"

	moeingads "github.com/smartbch/moeingads"
	"github.com/smartbch/moeingads/store"
	"github.com/smartbch/moeingads/store/rabbit"
	"github.com/smartbch/moeingads/store/types"
	adstypes "github.com/smartbch/moeingads/types"
)

// Root, trunk and rabbit stores.

type SOp struct {
	T int      `json:"t"`
	W [][3]int `json:"w,omitempty"` // {key, action, value}
	C bool     `json:"c,omitempty"` // write back
	H int      `json:"h,omitempty"`
	N int      `json:"n,omitempty"`
}

type SCase struct {
	Cfg   MCfg
	Rule  int // cacheable keys: 0 no function, 1 all, 2 by parity, 3 none, 4 by shard
	Limit int // root cache size limit per shard
	Mock  bool
	Ops   []SOp
}

func cacheRule(n int) func(k []byte) bool {
	switch abs(n) % 5 {
	case 1:
		return func(k []byte) bool { return true }
	case 2:
		return func(k []byte) bool { return k[len(k)-1]%2 == 0 }
	case 3:
		return func(k []byte) bool { return false }
	case 4:
		return func(k []byte) bool { return k[7] >= 128 }
	}
	return nil
}

type sRoot struct {
	c      *SCase
	env    *Env
	dir    string
	uni    *mUniverse
	mads   *moeingads.MoeingADS
	root   types.RootStoreI
	real   *store.RootStore
	height int64
	m      map[string][]byte // committed
	used   map[string]bool
	pos    string
	onRule atomic.Pointer[func()] // called with every question for a cacheable key
}

func newSRoot(c *SCase, env *Env, name string) *sRoot {
	cfg := c.Cfg.norm()
	st, en := guards(cfg.Guard)
	s := &sRoot{c: c, env: env, dir: filepath.Join(env.Dir, name), uni: &mUniverse{cfg: cfg, start: st, end: en, cache: map[int]string{}},
		height: -1, m: map[string][]byte{}, used: map[string]bool{}, pos: "start"}
	s.open()
	return s
}

func (s *sRoot) open() {
	if s.c.Mock {
		if s.root == nil {
			s.root = store.NewMockRootStore()
		}
		return
	}
	setParams(s.c.Cfg.norm())
	moeingads.RootCacheSizeLimit = clampInt(s.c.Limit, 0, 1<<20)
	db, err := moeingads.NewMoeingADS(s.dir, s.c.Cfg.Hist, [][]byte{s.uni.start, s.uni.end})
	if err != nil {
		failf("%s: opening fails: %v", s.pos, err)
	}
	s.mads = db
	rule := cacheRule(s.c.Rule)
	if r0 := rule; r0 != nil {
		rule = func(k []byte) bool {
			if f := s.onRule.Load(); f != nil {
				(*f)()
			}
			return r0(k)
		}
	}
	s.real = store.NewRootStore(db, rule)
	s.root = s.real
}

func (s *sRoot) reopen() {
	if s.c.Mock {
		return
	}
	before := s.real.GetRootHash()
	s.root.Close()
	s.open()
	if got := s.real.GetRootHash(); !bytes.Equal(got, before) {
		failf("%s: root hash %x before closing, %x after reopening", s.pos, before, got)
	}
}

func (s *sRoot) next(step int) {
	s.height += 1 + int64(clampInt(step, 0, 1<<30))
	s.root.SetHeight(s.height)
}

// nonEmpty values: an empty value means deletion in a trunk store
func (s *sRoot) value(v int) []byte {
	b := s.uni.value(v)
	if len(b) == 0 {
		return []byte{byte(v), 1}
	}
	return b
}

func (s *sRoot) sortedUsed() []string {
	var ks []string
	for k := range s.used {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (s *sRoot) cmp(what, k string, got, want []byte, have bool) {
	if !have {
		if got != nil {
			failf("%s: %s of %x returns %s, the key does not exist", s.pos, what, k, hx(got))
		}
		return
	}
	if got == nil || !bytes.Equal(got, want) {
		failf("%s: %s of %x returns %s (nil: %v), expected %s", s.pos, what, k, hx(got), got == nil, hx(want))
	}
}

// checkRoot compares root store and database with the committed state.
func (s *sRoot) checkRoot() {
	for _, k := range s.sortedUsed() {
		want, have := s.m[k]
		got := s.root.Get([]byte(k))
		s.cmp("root Get", k, got, want, have)
		for i := range got { // must not disturb anything
			got[i] ^= 0xff
		}
		s.cmp("second root Get", k, s.root.Get([]byte(k)), want, have)
		if s.mads != nil {
			var v []byte
			if e := s.mads.GetEntry([]byte(k)); e != nil {
				v = e.Value
			}
			s.cmp("database GetEntry", k, v, want, have)
		}
	}
	n := 0
	if s.mads != nil {
		s.mads.ScanAll(func(k, v []byte) {
			n++
			want, have := s.m[string(k)]
			if !have {
				failf("%s: the database holds %x, which should not be there", s.pos, k)
			}
			s.cmp("ScanAll", string(k), v, want, true)
		})
		if n != len(s.m) {
			failf("%s: the database holds %d keys, expected %d", s.pos, n, len(s.m))
		}
		if got := s.root.ActiveCount(); got != n+2 {
			failf("%s: ActiveCount %d with %d keys", s.pos, got, n)
		}
	}
}

func (s *sRoot) trunkSession(op SOp, readOnly bool) {
	var ts *store.TrunkStore
	if readOnly && s.real != nil {
		ts = s.real.GetReadOnlyTrunkStore(clampInt(op.N, 0, 1000)).(*store.TrunkStore)
	} else {
		ts = s.root.GetTrunkStore(clampInt(op.N, 0, 1000)).(*store.TrunkStore)
	}
	buf := map[string][]byte{} // nil: deleted
	get := func(k string) ([]byte, bool) {
		if v, ok := buf[k]; ok {
			return v, v != nil
		}
		v, ok := s.m[k]
		return v, ok
	}
	i := 0
	for i < len(op.W) {
		j := i
		for j < len(op.W) && op.W[j][1] != 5 {
			j++
		}
		part := op.W[i:j]
		i = j + 1
		for _, w := range part {
			k := []byte(s.uni.key(w[0]))
			s.used[string(k)] = true
			switch abs(w[1]) % 6 {
			case 0, 2:
				ts.PrepareForUpdate(k)
			case 1, 3:
				ts.PrepareForDeletion(k)
			}
		}
		ts.Update(func(db types.SetDeleter) {
			for _, w := range part {
				k := s.uni.key(w[0])
				switch abs(w[1]) % 6 {
				case 0:
					v := s.value(w[2])
					b := append([]byte{}, v...)
					db.Set([]byte(k), b)
					for x := range b { // the caller may reuse its buffer
						b[x] = 0
					}
					buf[k] = v
				case 1:
					db.Delete([]byte(k))
					buf[k] = nil
				}
			}
		})
		for _, w := range part {
			k := s.uni.key(w[0])
			v, ok := get(k)
			got := ts.Get([]byte(k))
			s.cmp("trunk Get", k, got, v, ok)
			for x := range got {
				got[x] ^= 0x5a
			}
			s.cmp("second trunk Get", k, ts.Get([]byte(k)), v, ok)
			cv, chave := s.m[k]
			s.cmp("root Get before write-back", k, s.root.Get([]byte(k)), cv, chave)
		}
		for _, k := range s.sortedUsed() {
			v, ok := get(k)
			s.cmp("trunk Get", k, ts.Get([]byte(k)), v, ok)
		}
	}
	if got := ts.CacheSize(); got != len(buf) {
		failf("%s: the trunk buffers %d keys, expected %d", s.pos, got, len(buf))
	}
	if op.C && !readOnly {
		s.next(op.H)
		ts.Close(true)
		for k, v := range buf {
			if v == nil {
				delete(s.m, k)
			} else {
				s.m[k] = v
			}
		}
		s.env.Label("trunk:written-back")
	} else {
		ts.Close(false)
		s.env.Label("trunk:discarded")
	}
}

func runS01(cs interface{}, env *Env) {
	c := cs.(*SCase)
	s := newSRoot(c, env, "db")
	eff := 0
	for i, op := range c.Ops {
		s.pos = fmt.Sprintf("step %d", i)
		before := len(s.m)
		switch abs(op.T) % 4 {
		case 0:
			s.trunkSession(op, false)
		case 1: // the root is written directly
			acts := map[string][]byte{}
			var ks []string
			for _, w := range op.W {
				k := s.uni.key(w[0])
				s.used[k] = true
				if _, ok := acts[k]; !ok {
					ks = append(ks, k)
				}
				if abs(w[1])%6 == 1 || abs(w[1])%6 == 3 {
					acts[k] = nil
				} else {
					acts[k] = s.value(w[2])
				}
			}
			for _, k := range ks {
				if acts[k] == nil {
					s.root.PrepareForDeletion([]byte(k))
				} else {
					s.root.PrepareForUpdate([]byte(k))
				}
			}
			s.next(op.H)
			s.root.Update(func(db types.SetDeleter) {
				for _, k := range ks {
					if acts[k] == nil {
						db.Delete([]byte(k))
						delete(s.m, k)
					} else {
						db.Set([]byte(k), acts[k])
						s.m[k] = acts[k]
					}
				}
			})
			env.Label("root:updated")
		case 2:
			s.reopen()
			env.Label("reopened")
		case 3:
			s.trunkSession(op, true)
		}
		if len(s.m) != before {
			eff++
		}
		s.checkRoot()
	}
	if eff >= 2 {
		env.Nontrivial()
	}
	env.Label(fmt.Sprintf("rule:%d", abs(c.Rule)%5))
	s.root.Close()
}

func genSWrites(r *Rand, n, uni int) (ws [][3]int) {
	for i := 0; i < n; i++ {
		a := 0
		switch x := r.Intn(100); {
		case x < 55:
		case x < 80:
			a = 1
		case x < 90:
			a = 2 + r.Intn(3)
		default:
			a = 5
		}
		ws = append(ws, [3]int{r.Intn(uni), a, r.Intn(1 << 20)})
	}
	return
}

func genSCfg(r *Rand) *SCase {
	c := &SCase{Cfg: genCfg(r), Rule: r.Intn(5), Limit: []int{0, 1, 3, 8, 1000}[r.Intn(5)]}
	c.Cfg.Reap = 1 << 30
	if r.Chance(30) {
		c.Cfg.Prof = 4 // crowds one cache shard
	}
	return c
}

// Real collisions of the first short key: 8-byte keys (found by a distinguished-point search) whose hashes agree in the first 63 bits used.
var collisions = [][2]string{
	{"ae425096a5dbbc6d", "ad859580c7635352"},
	{"b0112d6cbfa720f0", "b8a1cdd07ddb6172"},
	{"93b632e9eb65465e", "6efd9d82cb56adc7"},
	{"ad1034c3a907eea5", "5777aa4458c07457"},
	{"8018ae5bd3a3f699", "42bea5e498557f10"},
	{"46758aacb930bea1", "91d9853e7f013e50"},
	{"4bf40581ce93082d", "6febe609a0cdbd94"},
	{"4873dadf661fa942", "5620ca434f4b0f98"},
	{"42816833220c8878", "4a07b5753f494a2b"},
	{"6b6da402f7de6cf1", "5beedaf5a5b6ba6c"},
	{"6be96885ecf4c772", "6abd7ec09f1406e3"},
	{"60899647fc910002", "7f6a9822280c2f2d"},
	{"8fcda75300edd730", "450002fb7e813867"},
	{"838f14015cbbb158", "4b9f49658102536e"},
	{"5bf04e779ba5e41b", "55b454a872e31343"},
	{"82aba8488fe5824e", "b772ecca1a6605d2"},
}

func unhex(s string) []byte {
	b, err := hex.DecodeString(s)
	if err != nil {
		panic(err)
	}
	return b
}

func hashN(b []byte, n int) []byte {
	for i := 0; i < n; i++ {
		h := sha256.Sum256(b)
		b = h[:]
	}
	return b
}

// rabbitKey: keys of a universe in which colliding pairs and the keys along their hash chains meet in many ways.
func rabbitKey(seed, mode, i int) []byte {
	i = abs(i)
	if mode == 0 || i >= 1000 { // no crafted collisions
		r := newRand("rkey", seed, i)
		n := []int{0, 1, 2, 7, 8, 9, 20, 32, 33, 100}[r.Intn(10)]
		return append(r.Bytes(n), []byte(fmt.Sprint("/", i))...)
	}
	pair := collisions[(seed%len(collisions)+i/16)%len(collisions)]
	j := i % 16
	return hashN(unhex(pair[j%2]), j/2)
}

type rOracle struct {
	s     *sRoot
	trunk map[string][]byte // buffered over s.m, nil: deleted
	tx    map[string][]byte
	holes map[shortKey]bool // stored short keys the transaction used
}

func (o *rOracle) get(k string) ([]byte, bool) {
	if v, ok := o.tx[k]; ok {
		return v, v != nil
	}
	if v, ok := o.trunk[k]; ok {
		return v, v != nil
	}
	v, ok := o.s.m[k]
	return v, ok
}

func (o *rOracle) check(what string, rs *rabbit.RabbitStore) {
	for _, k := range o.s.sortedUsed() {
		v, have := o.get(k)
		o.s.cmp(what+" Get", k, rs.Get([]byte(k)), v, have)
		if rs.Has([]byte(k)) != have {
			failf("%s: %s Has(%x) is %v, expected %v", o.s.pos, what, k, !have, have)
		}
	}
}

func hasCollision(used map[string]bool) bool {
	seen := map[uint64]bool{}
	for k := range used {
		h := sha256.Sum256([]byte(k))
		x := uint64(h[0]%128+64)<<56 | uint64(h[1])<<48 | uint64(h[2])<<40 | uint64(h[3])<<32 | uint64(h[4])<<24 | uint64(h[5])<<16 | uint64(h[6])<<8 | uint64(h[7])
		if seen[x] {
			return true
		}
		seen[x] = true
	}
	return false
}

// runTx runs one rabbit transaction: acts 0 set, 1 delete, 2 read, 3 delete and set, 4 set and delete.
func (o *rOracle) runTx(rs *rabbit.RabbitStore, mode int, ws [][3]int) {
	for _, w := range ws {
		kb := rabbitKey(o.s.c.Cfg.Seed, mode, w[0])
		k := string(kb)
		o.s.used[k] = true
		set := func() {
			v := append([]byte{}, o.s.uni.value(w[2])...) // empty values too
			b, kc := append([]byte{}, v...), append([]byte{}, kb...)
			rs.Set(kc, b)
			fillJunk(b)
			fillJunk(kc)
			o.tx[k] = v
			if len(v) == 0 {
				o.s.env.Label("rabbit:empty-value")
			}
		}
		del := func() {
			kc := append([]byte{}, kb...)
			rs.Delete(kc)
			fillJunk(kc)
			o.tx[k] = nil
		}
		switch abs(w[1]) % 5 {
		case 0:
			set()
		case 1:
			del()
		case 3:
			del()
			set()
		case 4:
			set()
			del()
		}
		v, have := o.get(k)
		o.s.cmp("rabbit Get", k, rs.Get(kb), v, have)
		if rs.Has(kb) != have {
			failf("%s: Has(%x) is %v, expected %v", o.s.pos, k, !have, have)
		}
		path, ok := rs.GetShortKeyPath(kb)
		if ok != have || len(path) == 0 {
			failf("%s: GetShortKeyPath(%x) reports %v with %d steps, expected %v", o.s.pos, k, ok, len(path), have)
		}
		if len(path) > 1 {
			o.s.env.Label(fmt.Sprintf("path-length:%d", len(path)))
		}
		if have && o.holes != nil {
			for _, sk := range path {
				o.holes[sk] = true
			}
		}
	}
	o.check("rabbit", rs)
}

// fillJunk overwrites a buffer that the callee must have copied.
func fillJunk(b []byte) {
	for i := range b {
		b[i] ^= 0xa5
	}
}

type shortKey = [rabbit.KeySize]byte

// reported lists the short keys the store says it touched (true: changed). Clients detect conflicts with them.
func (o *rOracle) reported(rs *rabbit.RabbitStore) map[shortKey]bool {
	rep := map[shortKey]bool{}
	calls := 0
	rs.ScanAllShortKeys(func(k shortKey, dirty bool) bool {
		rep[k] = dirty
		calls++
		return false
	})
	if calls != len(rep) || rs.CachedEntryCount() != len(rep) || rs.IsClean() != (len(rep) == 0) {
		failf("%s: ScanAllShortKeys makes %d calls for %d keys, CachedEntryCount %d, IsClean %v", o.s.pos, calls, len(rep), rs.CachedEntryCount(), rs.IsClean())
	}
	if calls > 1 {
		n := 0
		rs.ScanAllShortKeys(func(k shortKey, dirty bool) bool { n++; return n == 2 })
		if n != 2 {
			failf("%s: ScanAllShortKeys makes %d calls although the second asked to stop", o.s.pos, n)
		}
	}
	for sk := range o.holes {
		if _, ok := rep[sk]; !ok {
			failf("%s: the transaction used the stored short key %x and does not report it", o.s.pos, sk)
		}
	}
	return rep
}

func runS02(cs interface{}, env *Env) {
	c := cs.(*SCase)
	c.Cfg.Guard = 0
	s := newSRoot(c, env, "db")
	mode := abs(c.Limit) % 4 // 0: no crafted collisions
	for i, op := range c.Ops {
		s.pos = fmt.Sprintf("step %d", i)
		if abs(op.T)%8 == 7 {
			s.reopen()
			continue
		}
		ts := s.root.GetTrunkStore(100).(*store.TrunkStore)
		o := &rOracle{s: s, trunk: map[string][]byte{}}
		// transactions are separated by action 9 (written back) or 8 (discarded)
		j := 0
		for j <= len(op.W) {
			e := j
			for e < len(op.W) && op.W[e][1] < 8 {
				e++
			}
			o.tx = map[string][]byte{}
			rs := rabbit.NewRabbitStore(ts)
			if !rs.IsClean() || rs.CachedEntryCount() != 0 {
				failf("%s: a new rabbit store is not clean", s.pos)
			}
			o.holes = map[shortKey]bool{}
			o.runTx(&rs, mode, op.W[j:e])
			rep := o.reported(&rs)
			before := map[shortKey][]byte{}
			for k := range s.used {
				h := sha256.Sum256([]byte(k))
				for d := 0; d < 3; d++ {
					var sk shortKey
					copy(sk[:], h[:])
					sk[0] = adstypes.LimitRange(sk[0])
					before[sk] = ts.Get(sk[:])
					h = sha256.Sum256(h[:])
				}
			}
			keep := e >= len(op.W) || op.W[e][1] == 9
			if !keep && e%2 == 0 {
				rs.Close()
			} else if e%3 == 0 && keep {
				rs.Close()
				rs.WriteBack()
			} else {
				rs.CloseAndWriteBack(keep)
			}
			if keep {
				for k, v := range o.tx {
					o.trunk[k] = v
				}
				env.Label("tx:written-back")
			} else {
				env.Label("tx:discarded")
			}
			o.tx = nil
			for sk, v := range before {
				w := ts.Get(sk[:])
				if changed := !bytes.Equal(v, w) || (v == nil) != (w == nil); changed && !(keep && rep[sk]) {
					failf("%s: the record of short key %x changed from %s to %s; written back: %v, reported as changed: %v", s.pos, sk, hx(v), hx(w), keep, rep[sk])
				} else if changed {
					env.Label("reported-change")
				}
			}
			rd := rabbit.NewReadOnlyRabbitStore(ts)
			o.check("trunk's rabbit", &rd)
			rd.Close()
			j = e + 1
		}
		if op.C {
			s.next(op.H)
		}
		ts.Close(op.C)
		if op.C {
			for k, v := range o.trunk {
				if v == nil {
					delete(s.m, k)
				} else {
					s.m[k] = v
				}
			}
			env.Label("trunk:written-back")
		}
		o.trunk = nil
		rd := rabbit.NewReadOnlyRabbitStore(s.root)
		o.check("root's rabbit", &rd)
		rd.Close()
	}
	if hasCollision(s.used) {
		env.Label("case:colliding-keys")
		for k := range env.labels {
			if len(k) > 12 && k[:12] == "path-length:" {
				env.Nontrivial()
			}
		}
	}
	// deleting all keys leaves nothing behind
	s.pos = "deleting all"
	ks := s.sortedUsed()
	r := newRand("delall", c.Cfg.Seed)
	r.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
	ts := s.root.GetTrunkStore(100).(*store.TrunkStore)
	rs := rabbit.NewRabbitStore(ts)
	for i, k := range ks {
		if _, have := s.m[k]; have || i%3 == 0 {
			rs.Delete([]byte(k))
		}
		if i == len(ks)/2 {
			rs.CloseAndWriteBack(true)
			rs = rabbit.NewRabbitStore(ts)
		}
	}
	rs.CloseAndWriteBack(true)
	s.next(0)
	ts.Close(true)
	want := 2
	if c.Mock {
		want = 0
	}
	if n := s.root.ActiveCount(); n != want {
		failf("after deleting all keys %d records are left in the base store", n-want)
	}
	s.m = map[string][]byte{}
	o := &rOracle{s: s}
	rd := rabbit.NewReadOnlyRabbitStore(s.root)
	o.check("root's rabbit", &rd)
	rd.Close()
	s.root.Close()
}

func genRabbitOps(r *Rand, steps int, uni int, allCommit bool) (ops []SOp) {
	for i := 0; i < steps; i++ {
		op := SOp{T: 0, C: allCommit || r.Chance(85), H: r.Intn(2) * r.Intn(3)}
		n := 1 + r.Intn(14)
		for j := 0; j < n; j++ {
			a := []int{0, 0, 0, 0, 1, 1, 1, 2, 3, 4}[r.Intn(10)]
			if r.Chance(15) {
				a = 9
			} else if r.Chance(4) {
				a = 8
			}
			k := r.Intn(uni)
			if r.Chance(10) {
				k = 1000 + r.Intn(20)
			}
			op.W = append(op.W, [3]int{k, a, r.Intn(1 << 20)})
		}
		ops = append(ops, op)
		if r.Chance(5) {
			ops = append(ops, SOp{T: 7})
		}
	}
	return
}

func runS03(cs interface{}, env *Env) {
	c := cs.(*SCase)
	c.Cfg.Hist, c.Mock, c.Cfg.Guard = true, false, 0
	s := newSRoot(c, env, "db")
	mode := abs(c.Limit) % 4
	type snap struct {
		h int64
		m map[string][]byte
	}
	var snaps []snap
	for i, op := range c.Ops {
		s.pos = fmt.Sprintf("step %d", i)
		if abs(op.T)%8 == 7 {
			s.reopen()
			continue
		}
		ts := s.root.GetTrunkStore(100).(*store.TrunkStore)
		o := &rOracle{s: s, trunk: map[string][]byte{}, tx: map[string][]byte{}}
		rs := rabbit.NewRabbitStore(ts)
		o.runTx(&rs, mode, op.W)
		rs.CloseAndWriteBack(true)
		for k, v := range o.tx {
			o.trunk[k] = v
		}
		// past heights are readable through a trunk that holds newer writes
		if len(snaps) > 0 && i%2 == 0 {
			sn := snaps[abs(op.N)%len(snaps)]
			s.checkAtHeight(ts, sn.h, sn.m, false, mode)
		}
		s.next(op.H)
		ts.Close(true)
		for k, v := range o.trunk {
			if v == nil {
				delete(s.m, k)
			} else {
				s.m[k] = v
			}
		}
		m := map[string][]byte{}
		for k, v := range s.m {
			m[k] = v
		}
		snaps = append(snaps, snap{s.height, m})
		hash := s.real.GetRootHash()
		for j, sn := range snaps {
			if len(snaps)-j > 4 && (i+j)%3 != 0 {
				continue
			}
			top := sn.h
			if j+1 < len(snaps) && snaps[j+1].h > sn.h+1 {
				top = snaps[j+1].h - 1
			}
			s.checkAtHeight(s.root, sn.h, sn.m, j%2 == 1, mode)
			if top != sn.h {
				s.checkAtHeight(s.root, top, sn.m, false, mode)
			}
		}
		if j := len(snaps); j > 1 {
			env.LabelN("heights-read", j)
		}
		if got := s.real.GetRootHash(); !bytes.Equal(got, hash) {
			failf("%s: reading past heights changed the root hash", s.pos)
		}
		rd := rabbit.NewReadOnlyRabbitStore(s.root)
		(&rOracle{s: s}).check("root's rabbit", &rd)
		rd.Close()
	}
	if len(snaps) >= 3 && hasCollision(s.used) {
		env.Nontrivial()
	}
	s.root.Close()
}

// checkAtHeight reads all keys at a height, optionally writing into the read-only store as well.
func (s *sRoot) checkAtHeight(parent types.BaseStoreI, h int64, m map[string][]byte, write bool, mode int) {
	rd := rabbit.NewReadOnlyRabbitStoreAtHeight(parent, uint64(h))
	for _, k := range s.sortedUsed() {
		v, have := m[k]
		s.cmp(fmt.Sprintf("Get at height %d (now %d)", h, s.height), k, rd.Get([]byte(k)), v, have)
		if rd.Has([]byte(k)) != have {
			failf("%s: Has(%x) at height %d is %v, expected %v", s.pos, k, h, !have, have)
		}
	}
	if write { // local to the store
		ks := s.sortedUsed()
		w := map[string][]byte{}
		for i, k := range ks {
			if i%3 == 0 {
				rd.Set([]byte(k), []byte("local"))
				w[k] = []byte("local")
			} else if i%3 == 1 {
				rd.Delete([]byte(k))
				w[k] = nil
			}
		}
		for _, k := range ks {
			v, have := m[k]
			if x, ok := w[k]; ok {
				v, have = x, x != nil
			}
			s.cmp(fmt.Sprintf("Get in the written read-only store at height %d", h), k, rd.Get([]byte(k)), v, have)
		}
		s.env.Label("read-only-store-written")
	}
	rd.Close()
}

func runS05(cs interface{}, env *Env) {
	c := cs.(*SCase)
	c.Mock, c.Cfg.Guard = false, 0
	s := newSRoot(c, env, "db")
	c2 := *c
	c2.Rule, c2.Limit = c.Rule+1+c.Cfg.Seed%3, c.Limit/2
	if c.Cfg.Seed%3 == 0 {
		c2.Cfg.Hist = !c.Cfg.Hist
	}
	rep := newSRoot(&c2, env, "replica")
	mode := abs(c.Limit) % 4
	dels, blocks := 0, 0
	for i, op := range c.Ops {
		s.pos = fmt.Sprintf("step %d", i)
		rep.pos = s.pos + " (replica)"
		if abs(op.T)%8 == 7 {
			if op.N%2 == 0 {
				rep.reopen()
			} else {
				s.reopen()
			}
			continue
		}
		ts := s.root.GetTrunkStore(100).(*store.TrunkStore)
		net := map[string][]byte{}
		if abs(op.T)%8 < 4 { // through rabbit transactions
			o := &rOracle{s: s, trunk: map[string][]byte{}}
			j := 0
			for j <= len(op.W) {
				e := j
				for e < len(op.W) && op.W[e][1] < 8 {
					e++
				}
				o.tx = map[string][]byte{}
				rs := rabbit.NewRabbitStore(ts)
				o.runTx(&rs, mode, op.W[j:e])
				rs.CloseAndWriteBack(true)
				for k, v := range o.tx {
					o.trunk[k] = v
				}
				j = e + 1
			}
			for k, v := range o.trunk {
				net[k] = v
			}
		} else { // short keys written to the trunk directly
			for _, w := range op.W {
				k := []byte(s.uni.key(w[0]))
				if w[1]%2 == 1 {
					ts.PrepareForDeletion(k)
				} else {
					ts.PrepareForUpdate(k)
				}
			}
			ts.Update(func(db types.SetDeleter) {
				for _, w := range op.W {
					k := []byte(s.uni.key(w[0]))
					if w[1]%2 == 1 {
						db.Delete(k)
						dels++
					} else {
						db.Set(k, s.value(w[2]))
					}
				}
			})
		}
		exported := map[string]string{}
		for k, v := range ts.GetCacheContent() {
			exported[k] = v
		}
		s.next(op.H)
		rep.height = s.height
		rep.root.SetHeight(s.height)
		ts.Close(true)
		store.SyncUpdateTo(exported, rep.root)
		blocks++
		for k, v := range net {
			if v == nil {
				delete(s.m, k)
			} else {
				s.m[k] = v
			}
		}
		if a, b := s.real.GetRootHash(), rep.real.GetRootHash(); !bytes.Equal(a, b) {
			failf("%s: at height %d the replica's root hash is %x, the original's %x", s.pos, s.height, b, a)
		}
		if a, b := s.root.ActiveCount(), rep.root.ActiveCount(); a != b {
			failf("%s: the replica has %d entries, the original %d", s.pos, b, a)
		}
		var ka, kb []string
		dump := func(m *moeingads.MoeingADS, to *[]string) {
			m.ScanAll(func(k, v []byte) { *to = append(*to, string(k)+"="+string(v)) })
		}
		dump(s.mads, &ka)
		dump(rep.mads, &kb)
		for j := range ka {
			if ka[j] != kb[j] {
				failf("%s: record %d of the replica is %x, of the original %x", s.pos, j, kb[j], ka[j])
			}
			k := []byte(ka[j][:8])
			if !bytes.Equal(rep.root.Get(k), []byte(ka[j][9:])) {
				failf("%s: the replica's root store returns another value than its database for %x", s.pos, k)
			}
		}
		for k := range exported {
			if !bytes.Equal(s.root.Get([]byte(k)), rep.root.Get([]byte(k))) || (s.root.Get([]byte(k)) == nil) != (rep.root.Get([]byte(k)) == nil) {
				failf("%s: the stores disagree about %x", s.pos, k)
			}
		}
		rd := rabbit.NewReadOnlyRabbitStore(rep.root)
		rep.used, rep.m = s.used, s.m
		ro := &rOracle{s: rep}
		if len(s.used) > 0 {
			ro.check("replica's rabbit", &rd)
		}
		rd.Close()
	}
	if blocks >= 2 {
		env.Nontrivial()
	}
	s.root.Close()
	rep.root.Close()
}

type S04Case struct {
	Cfg   MCfg
	Procs int
	Kind  int        // 0 rabbit transactions on a trunk, 1 raw blocks with many goroutines and readers
	Tx    [][][]TxOp // block, transaction, operations
	Ops   []MOp
	Gor   int
}

type TxOp struct {
	K, A, V int
}

// S04: the same transactions executed at once and one after another.
func runS04(cs interface{}, env *Env) {
	c := cs.(*S04Case)
	setProcs(c.Procs)
	c.Cfg.Reap = 1 << 30 // compaction reads active bits while clearing others of the same byte: harmless, but a race for the detector
	c.Cfg.Guard = 0
	if abs(c.Kind)%2 == 0 {
		a, b := newSRoot(&SCase{Cfg: c.Cfg, Rule: 1, Limit: 3}, env, "par"), newSRoot(&SCase{Cfg: c.Cfg, Rule: 1, Limit: 3}, env, "ser")
		for bi, txs := range c.Tx {
			pos := fmt.Sprintf("block %d", bi)
			a.pos, b.pos = pos, pos
			// what each transaction reads and writes; keys are disjoint between transactions of a block
			exec := func(s *sRoot, ts *store.TrunkStore, ti int, o *rOracle) *rabbit.RabbitStore {
				rs := rabbit.NewRabbitStore(ts)
				for _, op := range txs[ti] {
					k := rabbitKey(c.Cfg.Seed, 0, op.K*16+ti)
					switch abs(op.A) % 4 {
					case 0:
						v := s.value(op.V)
						rs.Set(k, v)
						o.tx[string(k)] = v
					case 1:
						rs.Delete(k)
						o.tx[string(k)] = nil
					}
					v, have := o.get(string(k))
					s.cmp("concurrent rabbit Get", string(k), rs.Get(k), v, have)
					// keys of the other transactions: unchanged until written back
					k2 := rabbitKey(c.Cfg.Seed, 0, op.K*16+(ti+1)%16)
					if _, mine := o.tx[string(k2)]; !mine {
						v, have := o.get(string(k2))
						s.cmp("concurrent rabbit Get of another key", string(k2), rs.Get(k2), v, have)
					}
				}
				rs.Close()
				return &rs
			}
			tsA := a.root.GetTrunkStore(100).(*store.TrunkStore)
			res := make([]*rabbit.RabbitStore, len(txs))
			ors := make([]*rOracle, len(txs))
			errs := make(chan interface{}, len(txs))
			var wg sync.WaitGroup
			start := make(chan struct{})
			for ti := range txs {
				ors[ti] = &rOracle{s: a, tx: map[string][]byte{}}
				wg.Add(1)
				go func(ti int) {
					defer wg.Done()
					defer func() {
						if e := recover(); e != nil {
							errs <- e
						}
					}()
					<-start
					res[ti] = exec(a, tsA, ti, ors[ti])
				}(ti)
			}
			close(start)
			wg.Wait()
			select {
			case e := <-errs:
				panic(e)
			default:
			}
			for ti := range txs {
				res[ti].WriteBack()
				for k, v := range ors[ti].tx {
					a.used[k] = true
					if v == nil {
						delete(a.m, k)
					} else {
						a.m[k] = v
					}
				}
			}
			a.next(0)
			tsA.Close(true)
			// one after another on the twin
			tsB := b.root.GetTrunkStore(100).(*store.TrunkStore)
			bo := &rOracle{s: b, trunk: map[string][]byte{}}
			for ti := range txs {
				bo.tx = map[string][]byte{}
				rs := exec(b, tsB, ti, bo)
				rs.WriteBack()
				for k, v := range bo.tx {
					bo.trunk[k] = v
				}
			}
			b.next(0)
			tsB.Close(true)
			for k, v := range bo.trunk {
				if v == nil {
					delete(b.m, k)
				} else {
					b.m[k] = v
				}
			}
			if x, y := a.real.GetRootHash(), b.real.GetRootHash(); !bytes.Equal(x, y) {
				failf("%s: %d concurrent transactions lead to root %x, one after another to %x", pos, len(txs), x, y)
			}
			// readers between blocks, concurrently
			par(8, func(t int) {
				rd := rabbit.NewReadOnlyRabbitStore(a.root)
				(&rOracle{s: a}).check("concurrent reader", &rd)
				rd.Close()
			})
			a.mads.CheckConsistency()
			env.LabelN("concurrent-transactions", len(txs))
			if len(txs) > 1 {
				env.Nontrivial()
			}
		}
		a.root.Close()
		b.root.Close()
		return
	}
	gor := clampInt(c.Gor, 2, 16)
	s := newSess(c.Cfg, mOpts{gor: gor, shuffle: 1 + abs(c.Cfg.Seed)%1000}, env, filepath.Join(env.Dir, "par"))
	s.opt.afterBlock = func(s *mSess) {
		// readers of all kinds at once
		par(6, func(t int) {
			r := newRand("reader", c.Cfg.Seed, s.m.blocks, t)
			for i := 0; i < 25 && len(s.m.sorted) > 0; i++ {
				k := s.m.sorted[r.Intn(len(s.m.sorted))]
				v := s.m.cur[k]
				switch (t + i) % 4 {
				case 0, 1:
					e := s.db.GetEntry([]byte(k))
					if e == nil || !bytes.Equal(e.Value, v.val) || string(e.NextKey) != v.next {
						failf("%s: concurrent GetEntry(%x) returns something else than the written value", s.pos, k)
					}
				case 2:
					if s.cfg.Hist {
						e := s.db.GetEntryAtHeight([]byte(k), uint64(s.m.height))
						if e == nil || !bytes.Equal(e.Value, v.val) {
							failf("%s: concurrent GetEntryAtHeight(%x) returns something else than the written value", s.pos, k)
						}
					} else if s.db.GetEntry([]byte(s.uni.key(500000+i))) != nil && !s.m.used[s.uni.key(500000+i)] {
						failf("%s: concurrent GetEntry finds an absent key", s.pos)
					}
				case 3:
					n := 0
					if i == 3 {
						s.db.ScanAll(func(k, v []byte) { n++ })
						if n != len(s.m.sorted) {
							failf("%s: concurrent ScanAll yields %d of %d keys", s.pos, n, len(s.m.sorted))
						}
					}
				}
			}
		})
	}
	s.opt.reads, s.opt.chain = true, true
	s.run(c.Ops)
	ref := newSess(c.Cfg, mOpts{gor: 1}, env, filepath.Join(env.Dir, "ser"))
	ref.run(c.Ops)
	sameRoots(env, s.roots, ref.roots, fmt.Sprintf("issued from %d goroutines and from one", gor))
	env.LabelN("concurrent-blocks", s.m.blocks)
	if s.m.blocks > 1 {
		env.Nontrivial()
	}
	s.close()
	ref.close()
}

// par runs f in n goroutines and passes a panic on.
func par(n int, f func(t int)) {
	var wg sync.WaitGroup
	errs := make(chan interface{}, n)
	for t := 0; t < n; t++ {
		wg.Add(1)
		go func(t int) {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(violation); !ok {
						e = fmt.Sprint(e, "\n", panicStack())
					}
					errs <- e
				}
			}()
			f(t)
		}(t)
	}
	wg.Wait()
	select {
	case e := <-errs:
		panic(e)
	default:
	}
}

func init() {
	assume := []string{"values are non-empty (an empty value means deletion in a trunk store)", "stores are used as documented: prepared before written, one writer, a rabbit store is closed before its write-back and before its trunk is written back"}
	newS := func() interface{} { return &SCase{} }
	register(&Check{
		ID: "S01", Quick: 500, Thorough: 25000,
		Rule:        "sequences of trunk sessions (several updates, reads in between, written back or discarded, read-only ones), direct root updates and reopenings, with 5 cacheable-key rules and cache limits from 0; trunk, root and database are read back and compared with maps; non-trivial: at least two steps changed the number of live keys",
		Assumptions: assume, New: newS,
		Gen: func(r *Rand, idx int, thorough bool) interface{} {
			c := genSCfg(r)
			n := 1 + r.Intn(12)
			uni := []int{3, 8, 20, 60}[r.Intn(4)]
			for i := 0; i < n; i++ {
				op := SOp{T: []int{0, 0, 0, 0, 1, 1, 2, 3}[r.Intn(8)], C: r.Chance(75), H: r.Intn(2) * r.Intn(4), N: r.Intn(20)}
				op.W = genSWrites(r, r.Intn(25), uni)
				c.Ops = append(c.Ops, op)
			}
			return c
		},
		Run: runS01,
	})
	register(&Check{
		ID: "S02", Quick: 700, Thorough: 40000,
		Rule:        "sequences of rabbit transactions (set, delete, read, delete-and-set, set-and-delete; written back, discarded) over trunk sessions (written back, discarded) and reopenings, over keys of length 0 to 102 and over keys that collide: pairs with a real collision of the first short key and the keys along their hash chains; all keys are read back after every transaction and session, and everything is deleted at the end; non-trivial: colliding keys were used and a path of more than one step was seen",
		Assumptions: assume, New: newS,
		Gen: func(r *Rand, idx int, thorough bool) interface{} {
			c := genSCfg(r)
			c.Mock = r.Chance(60)
			c.Limit = []int{0, 1, 2, 3}[r.Intn(4)]
			if c.Limit == 0 && r.Chance(50) {
				c.Limit = 1
			}
			uni := []int{3, 10, 16, 16, 32}[r.Intn(5)]
			c.Ops = genRabbitOps(r, 1+r.Intn(8), uni, false)
			return c
		},
		Run: runS02,
	})
	register(&Check{
		ID: "S03", Quick: 240, Thorough: 12000,
		Rule:        "block histories of rabbit transactions with history enabled; after each block read-only rabbit stores at past heights are read for every key, through the root and through a trunk with newer writes, some of them also written to; non-trivial: at least three heights and colliding keys",
		Assumptions: assume, New: newS,
		Gen: func(r *Rand, idx int, thorough bool) interface{} {
			c := genSCfg(r)
			c.Limit = []int{0, 1, 1, 2}[r.Intn(4)]
			uni := []int{3, 10, 16, 32}[r.Intn(4)]
			c.Ops = genRabbitOps(r, 2+r.Intn(10), uni, true)
			for i := range c.Ops {
				c.Ops[i].N = r.Intn(100)
				for j := range c.Ops[i].W {
					c.Ops[i].W[j][1] %= 5
				}
			}
			return c
		},
		Run: runS03,
	})
	register(&Check{
		ID: "S05", Quick: 260, Thorough: 12000,
		Rule:        "block histories of rabbit transactions and direct trunk writes; the exported changes of each trunk are applied to a replica with another cache rule; root hashes, counts and all records are compared after each block; non-trivial: at least two blocks",
		Assumptions: assume, New: newS,
		Gen: func(r *Rand, idx int, thorough bool) interface{} {
			c := genSCfg(r)
			uni := []int{3, 10, 16, 32, 100}[r.Intn(5)]
			c.Ops = genRabbitOps(r, 1+r.Intn(8), uni, true)
			for i := range c.Ops {
				if c.Ops[i].T == 0 {
					c.Ops[i].T = r.Intn(7)
				}
				c.Ops[i].N = r.Intn(100)
			}
			return c
		},
		Run: runS05,
	})
	register(&Check{
		ID: "S04", Quick: 110, Thorough: 4000, PerProc: 10, CPULimit: 400, Attempts: 12, Workers: 4,
		Rule:        "blocks of 2 to 12 rabbit transactions on disjoint keys executed at once on one trunk and written back one after another, and raw blocks issued from 2 to 16 goroutines with concurrent readers between blocks, with 2 to 16 processors, built with the race detector; roots and values are compared with serial execution; non-trivial: at least two transactions or blocks",
		Assumptions: append([]string{"a data race reported by the race detector counts as a schedule that may crash or give other results; compaction is left out of these histories"}, assume...),
		New:         func() interface{} { return &S04Case{} },
		Gen: func(r *Rand, idx int, thorough bool) interface{} {
			c := &S04Case{Cfg: genCfg(r), Procs: []int{2, 3, 4, 8, 16}[r.Intn(5)], Kind: idx % 2, Gor: 2 + r.Intn(15)}
			if c.Kind == 0 {
				for b := 0; b < 1+r.Intn(4); b++ {
					var txs [][]TxOp
					for t := 0; t < 2+r.Intn(11); t++ {
						var ops []TxOp
						for i := 0; i < r.Intn(25); i++ {
							ops = append(ops, TxOp{r.Intn(12), r.Intn(4), r.Intn(1 << 20)})
						}
						txs = append(txs, ops)
					}
					c.Tx = append(c.Tx, txs)
				}
			} else {
				for i := 0; i < 1+r.Intn(5); i++ {
					n := []int{5, 30, 200}[r.Intn(3)]
					c.Ops = append(c.Ops, MOp{T: 0, W: genWrites(r, r.Range(2, n), n, false), S: 1 + r.Intn(100)})
				}
				if r.Chance(25) {
					c.Ops = append(c.Ops, MOp{T: 4, N: r.Range(300, 2500), S: 1})
					c.Ops = append(c.Ops, MOp{T: 3, N: 2, M: 300, R: 400, D: 300, S: 5})
				}
				if r.Chance(30) {
					c.Ops = append(c.Ops, MOp{T: 1}, MOp{T: 0, W: genWrites(r, 20, 30, false), S: 1})
				}
			}
			return c
		},
		Run: runS04,
	})
}
