package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"os"
	"sort"
	"sync"

	moeingads "github.com/smartbch/moeingads"
	"github.com/smartbch/moeingads/indextree"
	"github.com/tecbot/gorocksdb"
)

// Histories over a whole MoeingADS database and a reference model of it.

type MCfg struct {
	Buf    int  // write buffer, KB
	Mul    int  // segment size = Mul*Buf
	Reap   int  // live entries needed for compaction
	Hist   bool // history enabled
	Guard  int  // which pair of guards
	Prof   int  // key profile
	Seed   int  // key universe and values
	Height int  // height of the first block
}

// MOp is one step. T: 0 block, 1 reopen, 2 prune, 3 churn (N blocks of M writes over R keys), 4 fill (N keys set in one block), 5 full verification, 6 delete run (N live keys from the Rth), 7 reopen with a rewrite of the key-value store's files in between
type MOp struct {
	T int      `json:"t"`
	H int      `json:"h,omitempty"` // height increment minus one
	W [][3]int `json:"w,omitempty"` // {key, action, value}
	G int      `json:"g,omitempty"` // goroutines
	S int      `json:"s,omitempty"` // seed
	N int      `json:"n,omitempty"`
	M int      `json:"m,omitempty"`
	R int      `json:"r,omitempty"`
	D int      `json:"d,omitempty"` // churn: percentage of deletions
}

type MCase struct {
	Cfg MCfg
	Ops []MOp
}

const (
	aSet = iota
	aDel
	aPrepUpd
	aPrepDel
	aSetDel
	aDelSet
	aSetSet
	aSame
	numActions
)

var actionNames = []string{"set", "delete", "prepare-update-only", "prepare-delete-only", "set-then-delete", "delete-then-set", "set-twice", "set-same-value"}

func clampInt(v, lo, hi int) int {
	if v < lo {
		return lo
	}
	if v > hi {
		return hi
	}
	return v
}

func (c *MCfg) norm() MCfg {
	n := *c
	n.Buf = clampInt(n.Buf, 4, 1024)
	n.Mul = clampInt(n.Mul, 1, 4096)
	n.Reap = clampInt(n.Reap, 1, 1<<30)
	n.Guard = clampInt(n.Guard, 0, 2)
	n.Prof = clampInt(n.Prof, 0, 8)
	n.Height = clampInt(n.Height, 0, 1<<61)
	return n
}

func guards(variant int) (start, end []byte) {
	switch variant {
	case 1:
		return []byte{0x3f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x1f}, []byte{0xc0, 0, 0, 0, 0, 0, 0, 0xe0}
	case 2:
		return []byte{0, 0, 0, 0, 0, 0, 0, 1}, []byte{255, 255, 255, 255, 255, 255, 255, 0xfe}
	}
	return make([]byte, 8), bytes.Repeat([]byte{255}, 8)
}

func be(v uint64) []byte {
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], v)
	return b[:]
}

type mUniverse struct {
	cfg        MCfg
	start, end []byte
	mtx        sync.Mutex
	cache      map[int]string
}

func (u *mUniverse) key(i int) string {
	if i < 0 {
		i = -i
	}
	u.mtx.Lock()
	defer u.mtx.Unlock()
	if k, ok := u.cache[i]; ok {
		return k
	}
	r := newRand("key", u.cfg.Seed, i)
	base := newRand("base", u.cfg.Seed)
	prof := u.cfg.Prof
	if prof == 7 {
		prof = i % 7
	}
	var b []byte
	switch prof {
	case 0:
		b = r.Bytes(8)
	case 1: // dense neighbours, crossing shards
		x := base.Uint64()
		b = be(x + uint64(i)*uint64(1+base.Intn(3)))
	case 2: // same low 48 bits, differing leading 16 bits, and the reverse
		x := base.Uint64()
		if i%3 == 0 {
			b = be(x&0xffffffffffff | uint64(r.Intn(1<<16))<<48)
		} else if i%3 == 1 {
			b = be((x & 0xffffffffffff) + uint64(i/9)&0xff | (uint64(i%5)+x>>60)<<48)
		} else {
			b = be(x&0xffff000000000000 | uint64(r.Int63())&0xffffffffffff)
		}
	case 3: // boundary bytes
		fb := []byte{0x00, 0x01, 0x3f, 0x40, 0x4f, 0x50, 0x7f, 0x80, 0xaf, 0xb0, 0xbf, 0xc0, 0xfe, 0xff}
		b = make([]byte, 8)
		for j := range b {
			b[j] = fb[r.Intn(len(fb))]
		}
		if r.Chance(60) {
			lb := []byte{0, 0x1f, 0x20, 0x3f, 0x40, 0x5f, 0x60, 0x7f, 0x80, 0x9f, 0xa0, 0xbf, 0xc0, 0xdf, 0xe0, 0xff}
			b[7] = lb[r.Intn(len(lb))]
		}
	case 4: // one shard
		b = r.Bytes(8)
		b[7] = byte(base.Intn(8)*32 + r.Intn(32))
	case 5: // next to the guards
		if i%2 == 0 {
			b = be(binary.BigEndian.Uint64(u.start) + 1 + uint64(i/2))
		} else {
			b = be(binary.BigEndian.Uint64(u.end) - 1 - uint64(i/2))
		}
	case 8: // two shards
		b = r.Bytes(8)
		sh := base.Intn(8)
		if r.Chance(45) {
			sh = (sh + 1 + base.Intn(7)) % 8
		}
		b[7] = byte(sh*32 + r.Intn(32))
	case 6: // as the rabbit store makes them
		b = r.Bytes(8)
		b[0] = b[0]%128 + 64
	}
	for bytes.Compare(b, u.start) <= 0 || bytes.Compare(b, u.end) >= 0 {
		b = r.Bytes(8)
		b[0] = 64 + b[0]%128
	}
	u.cache[i] = string(b)
	return string(b)
}

func (u *mUniverse) value(spec int) []byte {
	if spec < 0 {
		spec = -spec
	}
	r := newRand("val", u.cfg.Seed, spec)
	max := u.cfg.Buf*1024 - 1500
	switch spec % 12 {
	case 0:
		return []byte{}
	case 1:
		return r.Bytes(1 + r.Intn(8))
	case 2: // separator somewhere
		v := r.Bytes(r.Intn(40))
		v = append(v, magic8...)
		return append(v, r.Bytes(r.Intn(20))...)
	case 3: // overlapping separators
		v := append([]byte{}, magic8...)
		v = append(v, magic8[1:]...)
		v = append(v, magic8...)
		return v
	case 4:
		return r.Bytes(r.Range(100, clampInt(max, 100, 1200)))
	case 5:
		if r.Chance(15) {
			return r.Bytes(max - r.Intn(64))
		}
		return bytes.Repeat([]byte{0}, r.Intn(100))
	case 6:
		return bytes.Repeat([]byte{255}, 1+r.Intn(60))
	}
	return append(r.Bytes(8), []byte(fmt.Sprint(spec))...)
}

type mVersion struct {
	h       int64
	deleted bool
	val     []byte
	next    string
	last    int64 // LastHeight
}

type mModel struct {
	start, end string
	cur        map[string]*mVersion   // live keys and the start guard
	hist       map[string][]*mVersion // all versions
	sorted     []string               // live keys ascending
	used       map[string]bool
	blocks     int
	height     int64
}

func newModel(start, end []byte) *mModel {
	m := &mModel{start: string(start), end: string(end), cur: map[string]*mVersion{}, hist: map[string][]*mVersion{}, used: map[string]bool{}, height: -1}
	m.cur[m.start] = &mVersion{h: -1, val: []byte{}, next: m.end, last: -1}
	return m
}

// apply executes the net writes of a block. It reports the number of changed entries.
func (m *mModel) apply(h int64, sets map[string][]byte, dels map[string]bool) (changed int) {
	insDel := false
	for k := range sets {
		if m.cur[k] == nil {
			insDel = true
		}
	}
	for k := range dels {
		if m.cur[k] != nil {
			insDel = true
		}
	}
	old := map[string]*mVersion{}
	note := func(k string) {
		if _, ok := old[k]; !ok {
			old[k] = m.cur[k]
		}
	}
	for k, v := range sets {
		note(k)
		nv := &mVersion{h: h, val: v}
		if o := m.cur[k]; o != nil {
			nv.next, nv.last = o.next, o.h
		}
		m.cur[k] = nv
	}
	for k := range dels {
		if m.cur[k] == nil {
			continue
		}
		note(k)
		delete(m.cur, k)
		m.hist[k] = append(m.hist[k], &mVersion{h: h, deleted: true})
		changed++
	}
	if insDel {
		m.sorted = m.sorted[:0]
		for k := range m.cur {
			if k != m.start {
				m.sorted = append(m.sorted, k)
			}
		}
		sort.Strings(m.sorted)
		prev := m.start
		link := func(k, next string) {
			e := m.cur[k]
			if e.next != next {
				if _, ok := old[k]; !ok { // touched by its next key only
					old[k] = e
					e = &mVersion{h: h, val: e.val, last: e.h}
					m.cur[k] = e
				}
				e.next = next
			}
		}
		for _, k := range m.sorted {
			link(prev, k)
			prev = k
		}
		link(prev, m.end)
	}
	for k := range old {
		if v := m.cur[k]; v != nil && v.h == h {
			m.hist[k] = append(m.hist[k], v)
			changed++
		}
	}
	m.height = h
	m.blocks++
	return
}

func (m *mModel) at(k string, h int64) *mVersion {
	vs := m.hist[k]
	var res *mVersion
	for _, v := range vs {
		if v.h <= h {
			res = v
		}
	}
	if res != nil && res.deleted {
		return nil
	}
	return res
}

func (m *mModel) versionAt(k string, h int64) *mVersion {
	var res *mVersion
	for _, v := range m.hist[k] {
		if v.h <= h {
			res = v
		}
	}
	return res
}

type mOpts struct {
	reads, chain, proofs, hist, full bool // oracles
	noReopen, noPrune                bool // leave these steps out
	shuffle                          int  // seed for another order of preparing and issuing
	gor                              int  // overrides the goroutine count
	extraPrep                        bool // also prepare unrelated keys, look up absent keys
	allowPrune                       bool
	mock                             bool // a database of in-memory stand-ins
	afterBlock                       func(s *mSess)
	beforeBlock                      func(s *mSess, op MOp, ws []mWrite)
	inBlock                          func(s *mSess, written map[string]bool) // between BeginWrite and the writes, and before EndWrite
	beforePrune                      func(s *mSess, h int64)
}

type mSess struct {
	cfg               MCfg
	opt               mOpts
	env               *Env
	dir               string
	db                *moeingads.MoeingADS
	uni               *mUniverse
	m                 *mModel
	roots             [][]byte // after each block
	fullBlocks        int      // blocks in a row that ended with enough live entries for compaction
	held              []mHeld
	heldProofs        []mProof
	sns               map[string]int64
	maxSN             [8]int64
	pruned            int64 // largest pruned height in this session
	prunedEv          int64 // ever
	hadPrune          bool
	moved             int // entries moved by compaction
	files             int
	rnd               *Rand
	reopens           int
	rewriteKV         bool
	blocksAfterReopen int
	effective         int
	touched           []string
	prunedTwigs       bool
	maxFiles          int
	pos               string
	lastWalk          int64
	recs              []blockRec
	heights           []int64 // of all blocks
}

type blockRec struct {
	op MOp
	ws []mWrite
}

func setParams(c MCfg) {
	moeingads.HPFileBufferSize = c.Buf * 1024
	moeingads.DefaultHPFileSize = c.Buf * 1024 * c.Mul
	moeingads.StartReapThres = int64(c.Reap)
}

func newSess(cfg MCfg, opt mOpts, env *Env, dir string) *mSess {
	cfg = cfg.norm()
	s := &mSess{cfg: cfg, opt: opt, env: env, dir: dir, sns: map[string]int64{}, pruned: -1, prunedEv: -1, lastWalk: -2}
	st, en := guards(cfg.Guard)
	s.uni = &mUniverse{cfg: cfg, start: st, end: en, cache: map[int]string{}}
	s.m = newModel(st, en)
	s.rnd = newRand("sess", cfg.Seed)
	for i := range s.maxSN {
		s.maxSN[i] = 2047
		if opt.mock {
			s.maxSN[i] = -1
		}
	}
	s.open()
	return s
}

func (s *mSess) open() {
	setParams(s.cfg)
	if s.opt.mock {
		if err := os.Chdir(mkdir(s.dir)); err != nil { // it opens a database in the current directory
			infraf("%v", err)
		}
		s.db = moeingads.NewMoeingADS4Mock([][]byte{s.uni.start, s.uni.end})
		if err := os.Chdir("/"); err != nil {
			infraf("%v", err)
		}
		return
	}
	db, err := moeingads.NewMoeingADS(s.dir, s.cfg.Hist, [][]byte{s.uni.start, s.uni.end})
	if err != nil {
		failf("%s: opening the database fails: %v", s.pos, err)
	}
	s.db = db
}

func (s *mSess) close() {
	if s.db != nil {
		s.db.Close()
		s.db = nil
	}
}

type mWrite struct {
	k      string
	action int
	v      int
}

func (s *mSess) run(ops []MOp) {
	for i, op := range ops {
		s.pos = fmt.Sprintf("step %d", i)
		s.step(op)
	}
	s.pos = "end"
}

func (s *mSess) step(op MOp) {
	switch op.T {
	case 0:
		var ws []mWrite
		for _, w := range op.W {
			a := w[1] % numActions
			if a < 0 {
				a = -a
			}
			ws = append(ws, mWrite{s.uni.key(w[0]), a, w[2]})
		}
		s.block(op, ws)
	case 1:
		if s.opt.noReopen {
			return
		}
		s.reopen()
	case 7:
		if s.opt.noReopen {
			return
		}
		s.rewriteKV = true
		s.reopen()
	case 2:
		if s.opt.noPrune {
			return
		}
		h := s.m.height - int64(clampInt(op.N, 0, 1<<30))
		if op.D == 1 { // counted in blocks
			if h = -1; op.N >= 0 && op.N < len(s.heights) {
				h = s.heights[len(s.heights)-1-op.N]
			}
		}
		s.prune(h)
	case 3:
		r := newRand("churn", s.cfg.Seed, op.S)
		rng := clampInt(op.R, 1, 20000)
		n, mm := clampInt(op.N, 0, 400), clampInt(op.M, 0, 20000)
		for j := 0; j < n; j++ {
			var ws []mWrite
			if mm >= rng {
				for k := 0; k < rng; k++ {
					a := aSet
					if r.Intn(1000) < op.D {
						a = aDel
					}
					ws = append(ws, mWrite{s.uni.key(k), a, r.Intn(1 << 20)})
				}
			} else {
				for k := 0; k < mm; k++ {
					a := aSet
					if r.Intn(1000) < op.D {
						a = aDel
					}
					ws = append(ws, mWrite{s.uni.key(r.Intn(rng)), a, r.Intn(1 << 20)})
				}
			}
			s.block(MOp{H: op.H, G: op.G, S: op.S + j}, ws)
		}
	case 4:
		r := newRand("fill", s.cfg.Seed, op.S)
		var ws []mWrite
		for k := 0; k < clampInt(op.N, 0, 60000); k++ {
			ws = append(ws, mWrite{s.uni.key(op.R + k), aSet, r.Intn(1 << 20)})
		}
		s.block(MOp{H: op.H, G: op.G, S: op.S}, ws)
	case 5:
		s.verify(true)
	case 6: // delete a run of consecutive live keys, in one shard if D is odd
		if len(s.m.sorted) == 0 {
			return
		}
		first := clampInt(op.R, 0, 1<<30) % len(s.m.sorted)
		sh := shardOf(s.m.sorted[first])
		var ws []mWrite
		for i := 0; i < len(s.m.sorted) && len(ws) < clampInt(op.N, 0, 20000); i++ {
			k := s.m.sorted[(first+i)%len(s.m.sorted)]
			if op.D%2 == 1 && shardOf(k) != sh {
				continue
			}
			ws = append(ws, mWrite{k, aDel, 0})
		}
		s.block(MOp{H: op.H, G: op.G, S: op.S}, ws)
	}
}

func (s *mSess) block(op MOp, ws []mWrite) {
	h := s.m.height + 1 + int64(clampInt(op.H, 0, 1<<40))
	if s.m.height < 0 {
		h = int64(s.cfg.Height)
	}
	sets, dels := map[string][]byte{}, map[string]bool{}
	type call struct {
		k    string
		acts []mWrite
	}
	idx := map[string]int{}
	var calls []call
	for _, w := range ws {
		i, ok := idx[w.k]
		if !ok {
			i = len(calls)
			idx[w.k] = i
			calls = append(calls, call{k: w.k})
		}
		calls[i].acts = append(calls[i].acts, w)
		s.m.used[w.k] = true
		set := func(v []byte) { sets[w.k] = v; delete(dels, w.k) }
		del := func() { delete(sets, w.k); dels[w.k] = true }
		switch w.action {
		case aSet, aSetSet, aDelSet:
			set(s.uni.value(w.v))
		case aDel, aSetDel:
			del()
		case aSame:
			if c := s.m.cur[w.k]; c != nil {
				set(c.val)
			} else {
				set(s.uni.value(w.v))
			}
		}
		if s.env != nil && len(ws) < 500 {
			s.env.Label("write:" + actionNames[w.action])
		}
	}
	cur := map[string][]byte{}
	for _, c := range calls {
		if v := s.m.cur[c.k]; v != nil {
			cur[c.k] = v.val
		}
	}
	shuffle := newRand("shuf", op.S, s.opt.shuffle)
	order := shuffle.Perm(len(calls))
	if op.S == 0 && s.opt.shuffle == 0 {
		for i := range order {
			order[i] = i
		}
	}
	g := clampInt(op.G, 1, 16)
	if s.opt.gor > 0 {
		g = s.opt.gor
	}
	par := func(order []int, f func(c call)) {
		if g == 1 {
			for _, i := range order {
				f(calls[i])
			}
			return
		}
		var wg sync.WaitGroup
		perr := make(chan interface{}, g)
		for t := 0; t < g; t++ {
			wg.Add(1)
			go func(t int) {
				defer wg.Done()
				defer func() {
					if e := recover(); e != nil {
						perr <- fmt.Sprint(e, "\n", panicStack())
					}
				}()
				for j := t; j < len(order); j += g {
					f(calls[order[j]])
				}
			}(t)
		}
		wg.Wait()
		select {
		case e := <-perr:
			panic(e)
		default:
		}
	}
	db := s.db
	if s.opt.beforeBlock != nil {
		s.opt.beforeBlock(s, op, ws)
	}
	if s.opt.extraPrep {
		for j := 0; j < 3; j++ {
			k := []byte(s.uni.key(100000 + s.rnd.Intn(50)))
			db.PrepareForUpdate(k)
		}
		for i := 0; i < len(order); i += 4 {
			db.PrepareForUpdate([]byte(calls[order[i]].k))
			db.PrepareForDeletion([]byte(calls[order[i]].k))
		}
		db.GetEntry([]byte(s.uni.key(200000 + s.rnd.Intn(50))))
	}
	readAlong := s.opt.reads && op.S%3 == 1
	par(order, func(c call) {
		// the database keeps no reference to the caller's key: every call gets a buffer of its own, overwritten after it
		k := []byte(c.k)
		scribble := func() {
			for i := range k {
				k[i] ^= 0x5a
			}
			k = []byte(c.k)
		}
		upd, del := false, false
		for _, a := range c.acts {
			switch a.action {
			case aSet, aSetSet, aSame, aPrepUpd:
				upd = true
			case aDel, aPrepDel:
				del = true
			default:
				upd, del = true, true
			}
		}
		if upd {
			db.PrepareForUpdate(k)
			scribble()
		}
		if readAlong { // reading goes on while writes are being prepared
			e := db.GetEntry(k)
			want, live := cur[c.k]
			if (e != nil) != live || live && (!bytes.Equal(e.Value, want) || string(e.Key) != c.k) {
				failf("%s: GetEntry(%x) while the block at %d is prepared: entry %v, expected live=%v value %s", s.pos, k, h, e, live, hx(want))
			}
			scribble()
		}
		if del {
			found := db.PrepareForDeletion(k)
			scribble()
			_, live := cur[c.k]
			if found != live {
				failf("%s: PrepareForDeletion(%x) reports %v, the key is live: %v", s.pos, k, found, live)
			}
		}
	})
	db.BeginWrite(h)
	inBlock := func() {
		if s.opt.inBlock != nil {
			written := map[string]bool{}
			for _, c := range calls {
				written[c.k] = true
			}
			s.opt.inBlock(s, written)
		}
	}
	inBlock()
	order2 := order
	if s.opt.shuffle != 0 {
		order2 = shuffle.Perm(len(calls))
	}
	var given [][]byte // values handed over; they belong to the database until the block ends
	var gmtx sync.Mutex
	par(order2, func(c call) {
		set := func(v []byte) {
			k, v := []byte(c.k), append([]byte{}, v...)
			db.Set(k, v)
			for i := range k {
				k[i] ^= 0xa5
			}
			gmtx.Lock()
			given = append(given, v)
			gmtx.Unlock()
		}
		del := func() {
			k := []byte(c.k)
			db.Delete(k)
			for i := range k {
				k[i] ^= 0xa5
			}
		}
		for _, a := range c.acts {
			v := s.uni.value(a.v)
			switch a.action {
			case aSet:
				set(v)
			case aDel:
				del()
			case aSetDel:
				set(v)
				del()
			case aDelSet:
				del()
				set(v)
			case aSetSet:
				set(s.uni.value(a.v + 7))
				set(v)
			case aSame:
				if b, ok := cur[c.k]; ok {
					set(b)
				} else {
					set(v)
				}
			}
		}
	})
	inBlock()
	db.EndWrite()
	for _, v := range given {
		if s.opt.mock {
			break // keeps what it is given
		}
		for i := range v {
			v[i] ^= 0xa5
		}
	}
	s.heights = append(s.heights, h)
	if n := s.m.apply(h, sets, dels); n > 0 {
		s.effective++
	}
	if len(s.m.sorted) >= s.cfg.Reap {
		s.fullBlocks++
	} else {
		s.fullBlocks = 0
	}
	s.roots = append(s.roots, db.GetRootHash())
	if got := db.GetCurrHeight(); got != h {
		failf("%s: GetCurrHeight is %d after the block at height %d", s.pos, got, h)
	}
	s.touched = s.touched[:0]
	for _, c := range calls {
		s.touched = append(s.touched, c.k)
	}
	if s.reopens > 0 {
		s.blocksAfterReopen++
	}
	if s.opt.afterBlock != nil {
		s.opt.afterBlock(s)
	}
	s.verify(s.opt.full && len(s.m.sorted) < 400)
}

func (s *mSess) reopen() {
	before := s.db.GetRootHash()
	s.close()
	if s.rewriteKV {
		s.compactKV()
		s.rewriteKV = false
	}
	s.open()
	s.reopens++
	s.pruned = -1 // queries at or below the pruned height are answered as absent in the same session only
	if got := s.db.GetRootHash(); !bytes.Equal(got, before) {
		failf("%s: root hash is %x before closing and %x after reopening", s.pos, before, got)
	}
	if got := s.db.GetCurrHeight(); got != s.m.height {
		failf("%s: height is %d after reopening, was %d", s.pos, got, s.m.height)
	}
	s.verify(true)
}

// compactKV lets the key-value store rewrite all its files, as it may do at any time; records of heights before
// the prune height may disappear then.
func (s *mSess) compactKV() {
	kv, err := indextree.NewRocksDB("rocksdb", s.dir)
	if err != nil {
		failf("%s: the key-value store cannot be opened: %v", s.pos, err)
	}
	db := kv.(*indextree.RocksDB)
	if s.prunedEv >= 0 {
		db.SetPruneHeight(uint64(s.prunedEv))
		s.env.Label("kv:rewritten-after-prune")
	}
	db.DB().CompactRange(gorocksdb.Range{})
	db.Close()
	s.env.Label("kv:rewritten")
}

func (s *mSess) prune(h int64) {
	if h < 0 {
		return
	}
	before := s.db.GetRootHash()
	if s.opt.beforePrune != nil {
		s.opt.beforePrune(s, h)
	}
	s.db.PruneBeforeHeight(h)
	s.hadPrune = true
	if h > s.pruned {
		s.pruned = h
	}
	if h > s.prunedEv {
		s.prunedEv = h
	}
	if got := s.db.GetRootHash(); !bytes.Equal(got, before) {
		failf("%s: pruning changed the root hash from %x to %x", s.pos, before, got)
	}
	s.verify(true)
}

func (s *mSess) keysToCheck(full bool) []string {
	if full {
		ks := make([]string, 0, len(s.m.used))
		for k := range s.m.used {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		return ks
	}
	ks := append([]string{}, s.touched...)
	if len(ks) > 60 {
		ks = ks[:60]
	}
	for i := 0; i < 10 && len(s.m.sorted) > 0; i++ {
		ks = append(ks, s.m.sorted[s.rnd.Intn(len(s.m.sorted))])
	}
	return ks
}

func (s *mSess) verify(full bool) {
	if s.opt.reads {
		s.verifyReads(full)
	}
	if s.opt.chain {
		s.verifyChain(full)
	}
	if s.opt.proofs && (full || s.rnd.Chance(30)) {
		s.verifyProofs(full)
	}
	if s.opt.hist && s.cfg.Hist && (full || len(s.touched) < 60 || s.rnd.Chance(12)) {
		s.verifyHistory(full)
	}
}

// mHeld is an entry read earlier and what it said then.
type mHeld struct {
	e    *moeingads.Entry
	want moeingads.Entry
}

func (s *mSess) verifyReads(full bool) {
	for _, x := range s.held {
		if !bytes.Equal(x.e.Key, x.want.Key) || !bytes.Equal(x.e.Value, x.want.Value) || !bytes.Equal(x.e.NextKey, x.want.NextKey) ||
			x.e.Height != x.want.Height || x.e.LastHeight != x.want.LastHeight || x.e.SerialNum != x.want.SerialNum {
			failf("%s: an entry returned for %x earlier has changed since: %x=%s next %x, it was %s next %x", s.pos, x.want.Key, x.e.Key, hx(x.e.Value), x.e.NextKey, hx(x.want.Value), x.want.NextKey)
		}
	}
	if len(s.held) >= 24 {
		s.held = s.held[12:]
	}
	for _, k := range s.keysToCheck(full) {
		e := s.db.GetEntry([]byte(k))
		v := s.m.cur[k]
		if v == nil {
			if e != nil {
				failf("%s: GetEntry(%x) returns %s, the key does not exist", s.pos, k, hx(e.Value))
			}
			continue
		}
		if e == nil {
			failf("%s: GetEntry(%x) returns nothing, expected %s", s.pos, k, hx(v.val))
		}
		if !bytes.Equal(e.Value, v.val) || string(e.Key) != k {
			failf("%s: GetEntry(%x) returns key %x value %s, expected %s", s.pos, k, e.Key, hx(e.Value), hx(v.val))
		}
		if s.opt.mock { // hands out its own entries
		} else if len(s.held) < 24 && s.rnd.Chance(20) {
			s.held = append(s.held, mHeld{e, moeingads.Entry{Key: []byte(k), Value: v.val, NextKey: append([]byte{}, e.NextKey...), Height: e.Height, LastHeight: e.LastHeight, SerialNum: e.SerialNum}})
		} else if s.rnd.Chance(10) { // an entry belongs to its reader
			for _, b := range [][]byte{e.Key, e.Value, e.NextKey} {
				for i := range b {
					b[i] ^= 0x77
				}
			}
		}
	}
	for i := 0; i < 3; i++ {
		k := s.uni.key(300000 + s.rnd.Intn(1000))
		if !s.m.used[k] {
			if e := s.db.GetEntry([]byte(k)); e != nil {
				failf("%s: GetEntry(%x) returns an entry for a key never written", s.pos, k)
			}
		}
	}
	if n := s.db.ActiveCount(); n != len(s.m.sorted)+2 {
		failf("%s: ActiveCount is %d with %d live keys", s.pos, n, len(s.m.sorted))
	}
	if full || len(s.m.sorted) < 100 {
		i := len(s.m.sorted)
		s.db.ScanAll(func(k, v []byte) {
			i--
			if i < 0 {
				failf("%s: ScanAll yields more than the %d live keys: %x", s.pos, len(s.m.sorted), k)
			}
			want := s.m.sorted[i]
			if string(k) != want || !bytes.Equal(v, s.m.cur[want].val) {
				failf("%s: ScanAll yields %x=%s where %x=%s is expected", s.pos, k, hx(v), want, hx(s.m.cur[want].val))
			}
		})
		if i != 0 {
			failf("%s: ScanAll misses %d of %d live keys", s.pos, i, len(s.m.sorted))
		}
		s.db.CheckConsistency()
	}
	if full {
		s.db.CheckHashConsistency()
	}
}

func (s *mSess) checkMeta(k string, e *moeingads.Entry, v *mVersion) {
	if string(e.Key) != k || string(e.NextKey) != v.next || !bytes.Equal(e.Value, v.val) {
		failf("%s: entry %x has key %x, next key %x and value %s; expected next key %x and value %s", s.pos, k, e.Key, e.NextKey, hx(e.Value), v.next, hx(v.val))
	}
	if e.Height != v.h || e.LastHeight != v.last {
		failf("%s: entry %x has height %d and last height %d, expected %d and %d", s.pos, k, e.Height, e.LastHeight, v.h, v.last)
	}
}

func shardOf(k string) int { return int(k[7]) / 32 }

func (s *mSess) verifyChain(full bool) {
	if !full && len(s.m.sorted) > 3000 {
		return
	}
	k := s.m.start
	n := 0
	seen := map[int64]bool{}
	var newMax [8]int64
	copy(newMax[:], s.maxSN[:])
	for k != s.m.end {
		e := s.db.GetEntry([]byte(k))
		if e == nil {
			failf("%s: following next keys, %x is not there", s.pos, k)
		}
		if n > 0 && (n > len(s.m.sorted) || s.m.sorted[n-1] != k) {
			failf("%s: entry %d of the next-key chain is %x", s.pos, n, k)
		}
		s.checkMeta(k, e, s.m.cur[k])
		sh := shardOf(k)
		id := e.SerialNum*8 + int64(sh)
		if e.SerialNum < 0 || seen[id] {
			failf("%s: serial number %d of %x is not unique in shard %d", s.pos, e.SerialNum, k, sh)
		}
		seen[id] = true
		old, had := s.sns[k]
		if v := s.m.cur[k]; !had || old != e.SerialNum || v.h > s.lastWalk {
			if e.SerialNum <= s.maxSN[sh] {
				failf("%s: entry %x (height %d) was written again since the block at %d, but its serial number went from %d to %d while %d was already used in the shard", s.pos, k, v.h, s.lastWalk, old, e.SerialNum, s.maxSN[sh])
			}
			if had && v.h <= s.lastWalk {
				s.moved++
			}
		}
		s.sns[k] = e.SerialNum
		if e.SerialNum > newMax[sh] {
			newMax[sh] = e.SerialNum
		}
		k = string(e.NextKey)
		n++
	}
	if n-1 != len(s.m.sorted) {
		failf("%s: the next-key chain has %d keys, %d are live", s.pos, n-1, len(s.m.sorted))
	}
	if s.m.end != s.m.start {
		e := s.db.GetEntry([]byte(s.m.end))
		if e == nil {
			failf("%s: the end guard is gone", s.pos)
		}
	}
	for k := range s.sns {
		if k != s.m.start && s.m.cur[k] == nil {
			delete(s.sns, k)
		}
	}
	s.maxSN = newMax
	s.lastWalk = s.m.height
}

func (s *mSess) verifyHistory(full bool) {
	ks := s.keysToCheck(full)
	if max := map[bool]int{true: 150, false: 40}[full]; len(ks) > max {
		s.rnd.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
		if s.prunedEv >= 0 { // first some keys with a version written at the prune height or right after it
			n := 0
			for i, k := range ks {
				if v := s.m.versionAt(k, s.prunedEv+1); v != nil && v.h >= s.prunedEv && n < max/2 {
					ks[n], ks[i] = k, ks[n]
					n++
				}
			}
		}
		ks = ks[:max]
	}
	for _, k := range ks {
		vs := s.m.hist[k]
		hs := map[int64]bool{s.m.height: true, s.m.height + 1: true}
		if full && len(vs) <= 8 {
			for _, v := range vs {
				hs[v.h], hs[v.h+1] = true, true
				if v.h > 0 {
					hs[v.h-1] = true
				}
			}
			hs[0] = true
		} else {
			for i := 0; i < map[bool]int{true: 10, false: 5}[full] && len(vs) > 0; i++ {
				h := vs[s.rnd.Intn(len(vs))].h
				hs[h+int64(s.rnd.Intn(2))] = true
				if h > 0 {
					hs[h-1] = true
				}
			}
			if s.m.height > 0 {
				hs[s.rnd.Int63n(s.m.height+1)] = true
			}
		}
		if s.prunedEv >= 0 {
			for d := int64(-2); d < 3; d++ {
				if s.prunedEv+d >= 0 {
					hs[s.prunedEv+d] = true
				}
			}
		}
		var list []int64
		for h := range hs {
			list = append(list, h)
		}
		sort.Slice(list, func(i, j int) bool { return list[i] < list[j] })
		for _, h := range list {
			s.checkAt(k, h)
		}
	}
}

// checkAt queries one key at one height where the property fixes the answer.
func (s *mSess) checkAt(k string, h int64) {
	ver := s.m.versionAt(k, h)
	if s.prunedEv >= 0 {
		if h <= s.pruned {
			if e := s.db.GetEntryAtHeight([]byte(k), uint64(h)); e != nil {
				failf("%s: query of %x at height %d, pruned before %d, returns an entry of height %d", s.pos, k, h, s.pruned, e.Height)
			}
			s.env.Label("query:pruned-height")
			return
		}
		if h <= s.prunedEv || (ver != nil && ver.h < s.prunedEv) {
			return // no guarantee
		}
		s.env.Label("query:above-pruned-height")
	}
	e := s.db.GetEntryAtHeight([]byte(k), uint64(h))
	if ver == nil || ver.deleted {
		if e != nil {
			failf("%s: GetEntryAtHeight(%x,%d) returns value %s (height %d), but the key did not exist then", s.pos, k, h, hx(e.Value), e.Height)
		}
		s.env.Label("query:absent")
		return
	}
	if e == nil {
		failf("%s: GetEntryAtHeight(%x,%d) returns nothing, expected the version of height %d", s.pos, k, h, ver.h)
	}
	if string(e.Key) != k || !bytes.Equal(e.Value, ver.val) || string(e.NextKey) != ver.next || e.Height != ver.h || e.LastHeight != ver.last {
		failf("%s: GetEntryAtHeight(%x,%d) returns value %s, next key %x, height %d, last height %d; expected %s, %x, %d, %d", s.pos, k, h,
			hx(e.Value), e.NextKey, e.Height, e.LastHeight, hx(ver.val), ver.next, ver.h, ver.last)
	}
	if h < s.m.height {
		s.env.Label("query:past")
	}
}

// mProof is a proof given earlier and where it led to; it stays what it was.
type mProof struct {
	k      string
	entry  []byte
	copied []byte
	proof  []byte
	root   [32]byte
}

func (s *mSess) verifyProofs(full bool) {
	for _, p := range s.heldProofs {
		if root, _, _, err := refVerifyProof(p.copied, p.proof); err != nil || root != p.root || !bytes.Equal(p.entry, p.copied) {
			failf("%s: a proof of %x obtained earlier is not what it was: root %x, then %x (%v)", s.pos, p.k, root, p.root, err)
		}
	}
	if len(s.heldProofs) >= 8 {
		s.heldProofs = s.heldProofs[4:]
	}
	var shardRoot [8][32]byte
	var have [8]bool
	check := func(k string, v *mVersion) {
		entryBz, proof, err := s.db.GetProof([]byte(k))
		if err != nil {
			failf("%s: GetProof(%x) fails: %v", s.pos, k, err)
		}
		root, sn, active, err := refVerifyProof(entryBz, proof)
		if err != nil {
			failf("%s: the proof of %x does not verify: %v", s.pos, k, err)
		}
		if !active {
			failf("%s: the proof of %x shows the entry as inactive", s.pos, k)
		}
		e, err := refDecodeEntry(entryBz)
		if err != nil {
			failf("%s: proof of %x: %v", s.pos, k, err)
		}
		if e.SN != sn {
			failf("%s: proof of %x is for serial number %d, the entry has %d", s.pos, k, sn, e.SN)
		}
		if string(e.Key) != k || (v != nil && (!bytes.Equal(e.Value, v.val) || string(e.NextKey) != v.next || e.Height != v.h || e.LastHeight != v.last)) {
			failf("%s: the proved entry of %x is not the current one: %x=%s next %x height %d/%d", s.pos, k, e.Key, hx(e.Value), e.NextKey, e.Height, e.LastHeight)
		}
		sh := shardOf(k)
		if have[sh] && shardRoot[sh] != root {
			failf("%s: two proofs in shard %d lead to different roots", s.pos, sh)
		}
		have[sh], shardRoot[sh] = true, root
		if len(s.heldProofs) < 8 && s.rnd.Chance(15) {
			s.heldProofs = append(s.heldProofs, mProof{k, entryBz, append([]byte{}, entryBz...), proof, root})
		}
		s.env.Label("proofs")
	}
	ks := s.m.sorted
	var pick []string
	if full && len(ks) <= 300 {
		pick = ks
	} else {
		var per [8]int
		for _, i := range s.rnd.Perm(len(ks)) {
			sh := shardOf(ks[i])
			if per[sh] < 8 {
				per[sh]++
				pick = append(pick, ks[i])
			}
		}
	}
	check(s.m.start, s.m.cur[s.m.start])
	check(s.m.end, nil)
	for _, k := range pick {
		check(k, s.m.cur[k])
	}
	all := true
	for _, h := range have {
		all = all && h
	}
	if all {
		if got := s.db.GetRootHash(); !bytes.Equal(got, refCombineShards(shardRoot)) {
			failf("%s: the proofs lead to %x, the root hash is %x", s.pos, refCombineShards(shardRoot), got)
		}
		s.env.Label("root-recombined")
	}
	for i := 0; i < 2; i++ {
		k := s.uni.key(400000 + s.rnd.Intn(1000))
		if s.m.cur[k] == nil {
			if _, _, err := s.db.GetProof([]byte(k)); err == nil {
				failf("%s: GetProof of the absent key %x succeeds", s.pos, k)
			}
		}
	}
	if full {
		for k := range s.m.used {
			if s.m.cur[k] == nil {
				if _, _, err := s.db.GetProof([]byte(k)); err == nil {
					failf("%s: GetProof of the deleted key %x succeeds", s.pos, k)
				}
			}
		}
	}
}

func dirFiles(d string) (n int, bytesUsed int64) {
	ents, _ := os.ReadDir(d)
	for _, e := range ents {
		if e.IsDir() {
			a, b := dirFiles(d + "/" + e.Name())
			n += a
			bytesUsed += b
		} else if fi, err := e.Info(); err == nil {
			n++
			bytesUsed += fi.Size()
		}
	}
	return
}

func maxFileID(dir string) (max int64) {
	ents, _ := os.ReadDir(dir)
	for _, e := range ents {
		var id, size int64
		if n, _ := fmt.Sscanf(e.Name(), "%d-%d", &id, &size); n == 2 && id > max {
			max = id
		}
	}
	return
}
