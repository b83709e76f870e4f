package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"testing/iotest"

	"github.com/mmcloughlin/meow"
	"github.com/smartbch/moeingads/datatree"
	"github.com/smartbch/moeingads/types"
)

// The Merkle tree of one shard: D04 (root and proofs), D05 (recovery from files), D06 (saved memory).

type tEntry struct {
	bz     []byte // as stored and hashed, with the deactivated list
	leaf   [32]byte
	nsn    int
	pos    int64
	active bool
}

// TOp: T 0 append, 1 block end, 2 evict, 3 prune, 4 reopen (recover or load), 5 deactivate in one old twig, 6 mark
type TOp struct {
	T int `json:"t"`
	N int `json:"n,omitempty"`
	P int `json:"p,omitempty"` // percentage
	S int `json:"s,omitempty"`
}

type TreeCase struct {
	Buf, Mul int
	Val      int
	First    int // entries before the first block end
	More     int `json:",omitempty"` // twigs beyond 26 allowed
	Ops      []TOp
	Suffix   string
	Damage   [][3]int // D06: file, byte, change
}

type treeModel struct {
	ents       []tEntry
	oldest     int64
	lastPruned int64
	edge       []byte
	flushed    int // entries of finished blocks
	root       [32]byte
	sizes      [2]int64
	bits       map[int64]*[2048]bool
}

func (m *treeModel) youngest() int64 { return int64(len(m.ents)) >> 11 }

func (m *treeModel) clone() *treeModel {
	c := *m
	c.ents = append([]tEntry{}, m.ents...)
	c.edge = append([]byte{}, m.edge...)
	return &c
}

type treeSess struct {
	env      *Env
	c        *TreeCase
	t        *datatree.Tree
	dir      string
	m        *treeModel
	mark     *treeModel
	pend     []int64
	last     []int64 // positions already deactivated, in order; for picking
	left     map[int64][32]byte
	evicted  int
	prunes   int
	reopens  int
	blocks   int
	seq      int
	evicting bool // in this block
}

var treeNullLeaf = refHash(datatree.EntryToBytes(datatree.NullEntry(), nil))
var treeNull struct {
	leaf [12][32]byte // subtrees of null leaves by level
	twig [32]byte
	up   [64][32]byte
	bits [32]byte
}

func refBits(bits *[256]byte) [32]byte {
	var l [8][32]byte
	for i := range l {
		copy(l[i][:], bits[32*i:])
	}
	var a [4][32]byte
	for i := range a {
		a[i] = refHash2(8, l[2*i], l[2*i+1])
	}
	return refHash2(10, refHash2(9, a[0], a[1]), refHash2(9, a[2], a[3]))
}

func init() {
	treeNull.leaf[0] = treeNullLeaf
	for i := 1; i < 12; i++ {
		treeNull.leaf[i] = refHash2(byte(i-1), treeNull.leaf[i-1], treeNull.leaf[i-1])
	}
	var z [256]byte
	treeNull.bits = refBits(&z)
	treeNull.twig = refHash2(11, treeNull.leaf[11], treeNull.bits)
	treeNull.up[12] = treeNull.twig
	for i := 13; i < 64; i++ {
		treeNull.up[i] = refHash2(byte(i-1), treeNull.up[i-1], treeNull.up[i-1])
	}
}

// refLeft is the root over the leaves of a twig, missing ones being null.
func (s *treeSess) refLeft(twig int64) [32]byte {
	m := s.m
	lo := int(twig) << 11
	full := len(m.ents) >= lo+2048
	if full {
		if h, ok := s.left[twig]; ok {
			return h
		}
	}
	n := clampInt(len(m.ents)-lo, 0, 2048)
	cur := make([][32]byte, n)
	for i := range cur {
		cur[i] = m.ents[lo+i].leaf
	}
	for level := 0; level < 11; level++ {
		var next [][32]byte
		for i := 0; i < len(cur); i += 2 {
			r := treeNull.leaf[level]
			if i+1 < len(cur) {
				r = cur[i+1]
			}
			next = append(next, refHash2(byte(level), cur[i], r))
		}
		cur = next
	}
	h := treeNull.leaf[11]
	if len(cur) > 0 {
		h = cur[0]
	}
	if full {
		s.left[twig] = h
	}
	return h
}

func (s *treeSess) refTwigRoot(twig int64) [32]byte {
	var bits [256]byte
	lo := int(twig) << 11
	for i := 0; i < 2048 && lo+i < len(s.m.ents); i++ {
		if s.m.ents[lo+i].active {
			bits[i/8] |= 1 << uint(i%8)
		}
	}
	return refHash2(11, s.refLeft(twig), refBits(&bits))
}

// refRoot follows the documented shape: a binary tree over the twigs up to the youngest, where a missing right
// subtree at level L-1 below a node of level L is the null node of level L (the null twig for L=13).
func (s *treeSess) refRoot() [32]byte {
	n := s.m.youngest() + 1
	cur := make([][32]byte, n)
	for i := range cur {
		cur[i] = s.refTwigRoot(int64(i))
	}
	level := 12
	for len(cur) > 1 {
		var next [][32]byte
		for i := 0; i < len(cur); i += 2 {
			r := treeNull.twig
			if level > 12 {
				r = treeNull.up[level+1]
			}
			if i+1 < len(cur) {
				r = cur[i+1]
			}
			next = append(next, refHash2(byte(level), cur[i], r))
		}
		cur = next
		level++
	}
	return cur[0]
}

func newTreeSess(c *TreeCase, env *Env) *treeSess {
	s := &treeSess{env: env, c: c, dir: mkdir(env.TempDir("tree0")), left: map[int64][32]byte{}}
	s.m = &treeModel{lastPruned: -1}
	s.t = datatree.NewEmptyTree(s.buf(), s.blk(), s.dir, s.suffix())
	r := newRand("first", c.First)
	for i := 0; i < 2048+clampInt(c.First, 0, 5000); i++ {
		s.append(r, r.Chance(30) && i < 2048)
	}
	s.endBlock()
	return s
}

func (s *treeSess) buf() int { return clampInt(s.c.Buf, 4096, 1<<20) / 4096 * 4096 }
func (s *treeSess) blk() int { return s.buf() * clampInt(s.c.Mul, 1, 256) }
func (s *treeSess) suffix() string {
	if s.c.Suffix == "" {
		return ""
	}
	return ".3"
}

func (s *treeSess) entry(r *Rand) *datatree.Entry {
	sn := int64(len(s.m.ents))
	n := clampInt(s.c.Val, 0, 300)
	e := &datatree.Entry{Key: r.Bytes(8), Value: r.Bytes(r.Intn(n + 1)), NextKey: r.Bytes(8), Height: int64(s.blocks), LastHeight: int64(r.Intn(s.blocks + 1)), SerialNum: sn}
	switch r.Intn(40) {
	case 0:
		e.Value = append(append(e.Value, magic8...), magic8...)
	case 1:
		e.NextKey = append([]byte{}, magic8...)
	case 2:
		e.Key = append(append([]byte{1}, magic8...), 2, 3, 4, 5, 6, 7, 8, 9)
	case 3:
		e.Key = []byte("dumm")
	case 4:
		e.Key = []byte("dummyy")
	}
	return e
}

func (s *treeSess) took(bz []byte, pos int64, active bool) {
	var want int64
	if n := len(s.m.ents); n > 0 {
		p := s.m.ents[n-1]
		want = p.pos + int64(8+(len(p.bz)+7)/8*8)
		if pos < want {
			failf("entry %d is placed at %d inside the previous one, which ends at %d", n, pos, want)
		}
	}
	s.m.ents = append(s.m.ents, tEntry{bz: bz, leaf: refHash(bz), nsn: int(bz[0]), pos: pos, active: active})
	s.pend = s.pend[:0]
}

func (s *treeSess) append(r *Rand, dummy bool) {
	e := s.entry(r)
	if dummy {
		e = datatree.DummyEntry(e.SerialNum)
	}
	bz := datatree.EntryToBytes(*e, s.pend)
	pos := s.t.AppendEntry(e)
	s.took(bz, pos, !dummy)
}

func (s *treeSess) deactivate(sn int64) {
	if len(s.pend) >= 200 {
		s.append(newRand("fill", int(sn)), false)
	}
	if n := s.t.DeactiviateEntry(sn); n != len(s.pend)+1 {
		failf("deactivating returns a list size of %d, want %d", n, len(s.pend)+1)
	}
	s.pend = append(s.pend, sn)
	s.m.ents[sn].active = false
	if n := s.t.DeactivedSNListSize(); n != len(s.pend) {
		failf("the list of deactivated numbers has size %d, want %d", n, len(s.pend))
	}
}

// pick an active entry of an unretired twig
func (s *treeSess) pick(r *Rand, lo, hi int) (int64, bool) {
	if min := int(s.m.oldest) << 11; lo < min {
		lo = min
	}
	if hi > len(s.m.ents) {
		hi = len(s.m.ents)
	}
	for try := 0; try < 10 && lo < hi; try++ {
		sn := lo + r.Intn(hi-lo)
		if s.m.ents[sn].active {
			return int64(sn), true
		}
	}
	return 0, false
}

func (s *treeSess) endBlock() {
	s.blocks++
	if len(s.pend) > 0 {
		s.append(newRand("end", s.blocks), true)
	}
	root := s.t.EndBlock()
	s.m.flushed = len(s.m.ents)
	s.evicting = false
	s.m.root = s.refRoot()
	if root != s.m.root {
		failf("the root after block %d (%d entries, oldest twig %d, last pruned %d) is %x, want %x", s.blocks, len(s.m.ents), s.m.oldest, s.m.lastPruned, root, s.m.root)
	}
	s.m.sizes[0], s.m.sizes[1] = s.t.GetFileSizes()
	if (s.blocks+s.c.First)%2 == 0 {
		s.t.WaitForFlushing()
	}
	s.checkSome(newRand("chk", s.c.First, s.blocks), 4)
}

func (s *treeSess) checkSome(r *Rand, n int) {
	m := s.m
	first := (m.lastPruned + 1) << 11
	total := int64(len(m.ents))
	for i := 0; i < n; i++ {
		var sn int64
		switch r.Intn(6) {
		case 0:
			sn = total - 1 - int64(r.Intn(50))
		case 1: // edges of twigs
			sn = (int64(r.Range(int(first>>11), int(m.youngest())))<<11 + int64(r.Intn(5)) - 2)
		case 2:
			sn = first + int64(r.Intn(2048))
		case 3:
			sn = m.oldest<<11 + int64(r.Intn(2048))
		default:
			sn = first + int64(r.Intn(int(total-first)))
		}
		if sn < first {
			sn = first
		}
		s.checkProof(r, sn)
	}
	if i := r.Intn(3); i == 0 {
		for _, sn := range []int64{-1, -2048, (m.youngest()+1)<<11 + int64(r.Intn(3000)), 1 << 40} {
			if bz, err := s.t.GetProofBytesAndCheck(sn, nil); err == nil {
				failf("a proof of %d bytes is returned for serial number %d", len(bz), sn)
			}
		}
	}
	if r.Chance(10) {
		datatree.CheckHashConsistency(s.t)
	}
}

func (s *treeSess) checkProof(r *Rand, sn int64) {
	m := s.m
	bz := datatree.EntryToBytes(datatree.NullEntry(), nil)
	active := false
	if sn < int64(len(m.ents)) {
		bz, active = m.ents[sn].bz, m.ents[sn].active
	}
	p, err := s.t.GetProofBytesAndCheck(sn, append([]byte{}, bz...))
	what := fmt.Sprintf("serial number %d (of %d, oldest twig %d, last pruned %d)", sn, len(m.ents), m.oldest, m.lastPruned)
	if err != nil {
		failf("no proof for %s: %v", what, err)
	}
	root, psn, act, err := refVerifyProof(bz, p)
	if err != nil {
		failf("the proof of %s is wrong: %v", what, err)
	}
	if root != m.root {
		failf("the proof of %s leads to another root", what)
	}
	if psn != sn || act != active {
		failf("the proof of %s shows number %d, active %v, want active %v", what, psn, act, active)
	}
	if want := 8 + 32*(18+upperLevels(m.youngest())); len(p) != want {
		failf("the proof of %s has %d bytes, want %d", what, len(p), want)
	}
	if q, err := s.t.GetProofBytesAndCheck(sn, nil); err != nil || !bytes.Equal(p, q) {
		failf("the proof of %s depends on the entry given: %v", what, err)
	}
	x := append([]byte{}, bz...)
	switch o := r.Intn(len(m.ents)); r.Intn(3) {
	case 0:
		x = m.ents[o].bz
	case 1:
		x[r.Intn(len(x))] ^= byte(1 << uint(r.Intn(8)))
	case 2:
		x = x[:r.Range(1, len(x)-1)]
	}
	if !bytes.Equal(x, bz) {
		if _, err := s.t.GetProofBytesAndCheck(sn, x); err == nil {
			failf("the proof of %s is given for other entry bytes", what)
		}
	}
	if sn>>11 >= m.oldest && s.t.GetActiveBit(sn) != active {
		failf("the active bit of %s is %v, want %v", what, !active, active)
	}
}

// number of nodes of the upper path minus one
func upperLevels(youngest int64) int {
	n := -1
	for ; youngest > 0; youngest >>= 1 {
		n++
	}
	return n
}

func (s *treeSess) canEvict() bool {
	return s.m.oldest+2 <= s.m.youngest() && s.m.flushed >= int(s.m.oldest+1)<<11
}

func (s *treeSess) evict() {
	m := s.m
	var got [][]byte
	for bz := range s.t.GetActiveEntriesInTwig(m.oldest) {
		got = append(got, append([]byte{}, bz...))
	}
	i := 0
	for sn := int(m.oldest) << 11; sn < int(m.oldest+1)<<11; sn++ {
		e := m.ents[sn]
		if !e.active {
			continue
		}
		if i >= len(got) {
			failf("scanning twig %d for active entries does not return number %d", m.oldest, sn)
		}
		if !bytes.Equal(got[i], e.bz[:len(e.bz)-8*e.nsn]) {
			failf("scanning twig %d for active entries returns %s for number %d, want %s", m.oldest, hx(got[i]), sn, hx(e.bz))
		}
		i++
	}
	if i != len(got) {
		failf("scanning twig %d returns %d entries, %d are active", m.oldest, len(got), i)
	}
	r := newRand("evict", int(m.oldest), len(m.ents))
	flush := r.Intn(3) // how many deactivations are written with another entry than the moved one
	for _, bz := range got {
		s.deactivate(datatree.ExtractSerialNum(bz))
		if flush > 0 && r.Chance(1+20*(flush-1)) {
			s.append(r, r.Chance(70))
			s.env.Label("moved:no-pending-deactivations")
		}
		sn := int64(len(m.ents))
		datatree.UpdateSerialNum(bz, sn)
		w := append([]byte{}, bz...)
		w[0] = byte(len(s.pend))
		for _, x := range s.pend {
			var b [8]byte
			binary.LittleEndian.PutUint64(b[:], uint64(x))
			w = append(w, b[:]...)
		}
		pos := s.t.AppendEntryRawBytes(bz, sn)
		s.took(w, pos, true)
	}
	if s.t.TwigCanBePruned(m.oldest) {
		failf("twig %d can be pruned before it is evicted", m.oldest)
	}
	s.t.EvictTwig(m.oldest)
	m.oldest++
	s.evicting = true
	s.evicted++
}

func (s *treeSess) prune(op TOp) {
	m := s.m
	start := m.lastPruned + 1
	max := m.oldest - 1
	if max < start+2 {
		return
	}
	end := start + 2 + int64(abs(op.N))%(max-start-1)
	for id := start; id < m.oldest; id++ {
		if !s.t.TwigCanBePruned(id) {
			failf("evicted twig %d cannot be pruned", id)
		}
	}
	if s.t.TwigCanBePruned(m.oldest) {
		failf("active twig %d can be pruned", m.oldest)
	}
	if op.S%2 == 0 {
		m.edge = s.t.PruneTwigs(start, end)
	} else {
		m.edge = s.t.ReapNodes(start, end)
		s.t.PruneFiles(end)
	}
	m.lastPruned = end - 1
	s.prunes++
	s.mark = nil
	s.checkSome(newRand("prune", s.c.First, s.blocks, op.S), 8)
}

func copyDir(from, to string) {
	mkdir(to)
	ents, err := os.ReadDir(from)
	if err != nil {
		infraf("%v", err)
	}
	for _, e := range ents {
		if e.IsDir() {
			copyDir(filepath.Join(from, e.Name()), filepath.Join(to, e.Name()))
			continue
		}
		b, err := os.ReadFile(filepath.Join(from, e.Name()))
		if err != nil {
			infraf("%v", err)
		}
		if err := os.WriteFile(filepath.Join(to, e.Name()), b, 0700); err != nil {
			infraf("%v", err)
		}
	}
}

// all readable answers of a tree against the model
func (s *treeSess) checkAll(r *Rand, what string) {
	m := s.m
	for sn := m.oldest << 11; sn < int64(len(m.ents)); sn++ {
		if s.t.GetActiveBit(sn) != m.ents[sn].active {
			failf("%s: active bit of serial number %d is %v", what, sn, !m.ents[sn].active)
		}
	}
	lite := make(chan types.KeyAndPos, 100)
	go s.t.ScanEntriesLite(m.oldest, lite)
	sn := m.oldest << 11
	for k := range lite {
		if sn >= int64(len(m.ents)) {
			failf("%s: scanning meets an entry behind the last one", what)
		}
		e := m.ents[sn]
		d, err := refDecodeEntry(e.bz)
		if err != nil {
			infraf("%v", err)
		}
		if k.Pos != e.pos || k.SerialNum != sn || !bytes.Equal(k.Key, d.Key) {
			failf("%s: scanning returns key %s number %d at %d, want key %s number %d at %d", what, hx(k.Key), k.SerialNum, k.Pos, hx(d.Key), sn, e.pos)
		}
		sn++
	}
	if sn != int64(len(m.ents)) {
		failf("%s: scanning ends after number %d of %d", what, sn, len(m.ents))
	}
	if r.Chance(30) {
		full := make(chan types.EntryX, 100)
		go s.t.ScanEntries(m.oldest, full)
		sn = m.oldest << 11
		for x := range full {
			e := m.ents[sn]
			d, _ := refDecodeEntry(e.bz)
			sameEntry(what+": the scan", x.Entry, &datatree.Entry{Key: d.Key, Value: d.Value, NextKey: d.NextKey, Height: d.Height, LastHeight: d.LastHeight, SerialNum: d.SN})
			sameSNs(what+": the scan", x.DeactivedSNList, d.Deact)
			if x.Pos != e.pos {
				failf("%s: the scan returns number %d at %d, want %d", what, sn, x.Pos, e.pos)
			}
			sn++
		}
	}
	for i := 0; i < 20; i++ {
		lo := int(m.lastPruned+1) << 11
		e := m.ents[lo+r.Intn(len(m.ents)-lo)]
		if b := s.t.ReadEntryBytesForProof(e.pos); !bytes.Equal(b, e.bz) {
			failf("%s: the entry at %d reads as %s, want %s", what, e.pos, hx(b), hx(e.bz))
		}
		d, _ := refDecodeEntry(e.bz)
		sameEntry(what+": ReadEntry", s.t.ReadEntry(e.pos), &datatree.Entry{Key: d.Key, Value: d.Value, NextKey: d.NextKey, Height: d.Height, LastHeight: d.LastHeight, SerialNum: d.SN})
	}
	a, b := s.t.GetFileSizes()
	if a != m.sizes[0] || b != m.sizes[1] {
		failf("%s: the file sizes are %d and %d, want %d and %d", what, a, b, m.sizes[0], m.sizes[1])
	}
	s.checkSome(r, 24)
	datatree.CheckHashConsistency(s.t)
}

func (s *treeSess) atBlockEnd() bool {
	return s.m.flushed == len(s.m.ents) && len(s.pend) == 0 && !s.evicting
}

func (s *treeSess) recover(op TOp) {
	r := newRand("rec", op.S, s.seq)
	s.t.WaitForFlushing()
	if s.mark != nil && r.Chance(70) {
		// the files contain more blocks than the state to be recovered
		s.m = s.mark.clone()
		s.left = map[int64][32]byte{}
		s.pend = s.pend[:0]
		s.env.Label("recovered an older block")
	} else if !s.atBlockEnd() {
		s.endBlock()
		s.t.WaitForFlushing()
	}
	s.mark = nil
	m := s.m
	if m.oldest >= m.youngest() {
		return
	}
	s.reopens++
	dir := filepath.Join(filepath.Dir(s.dir), fmt.Sprintf("tree%d", s.reopens))
	copyDir(s.dir, dir)
	s.t.Close()
	os.RemoveAll(s.dir)
	s.dir = dir
	for _, n := range []string{"entries", "twigmt"} {
		s.trailing(r, filepath.Join(dir, n+s.suffix()))
	}
	edgeCodec(r)
	var edges []*datatree.EdgeNode
	if m.edge != nil {
		edges = datatree.BytesToEdgeNodes(m.edge)
	}
	t, root := datatree.RecoverTree(s.buf(), s.blk(), dir, s.suffix(), edges, m.lastPruned, m.oldest, m.youngest(), []int64{m.sizes[0], m.sizes[1]})
	s.t = t
	if root != m.root {
		failf("the recovered root (%d entries, oldest twig %d, youngest %d, last pruned %d) is %x, want %x", len(m.ents), m.oldest, m.youngest(), m.lastPruned, root, m.root)
	}
	// as the database does after recovery
	s.pend = s.pend[:0]
	s.checkAll(r, "after recovery")
	if !bytes.Equal(datatree.EdgeNodesToBytes(edges), m.edge) {
		failf("encoding the decoded edge nodes gives other bytes")
	}
}

// trailing garbage: bytes behind the last segment, further segments
func (s *treeSess) trailing(r *Rand, dir string) {
	ents, err := os.ReadDir(dir)
	if err != nil {
		infraf("%v", err)
	}
	max, name := -1, ""
	for _, e := range ents {
		var id, bs int
		if n, _ := fmt.Sscanf(e.Name(), "%d-%d", &id, &bs); n == 2 && id > max {
			max, name = id, e.Name()
		}
	}
	if max < 0 {
		failf("no segment is left in %s", dir)
	}
	put := func(name string, n int) {
		f, err := os.OpenFile(filepath.Join(dir, name), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0700)
		if err != nil {
			infraf("%v", err)
		}
		g := r.Bytes(n)
		for i := 0; i+8 <= n && r.Chance(70); i += 64 {
			copy(g[i:], magic8)
		}
		if _, err := f.Write(g); err != nil {
			infraf("%v", err)
		}
		f.Close()
	}
	switch r.Intn(4) {
	case 1:
		put(name, r.Intn(5000))
	case 2:
		put(name, r.Intn(200))
		for i := 0; i < 1+r.Intn(3); i++ {
			put(fmt.Sprintf("%d-%d", max+1+i, s.blk()), r.Intn(5000))
		}
	case 3:
		put(fmt.Sprintf("%d-%d", max+1, s.blk()), 0)
	}
}

func (s *treeSess) reload(op TOp) {
	r := newRand("load", op.S, s.seq)
	if !s.atBlockEnd() {
		s.endBlock()
	}
	s.t.SaveMemToDisk()
	s.t.WaitForFlushing()
	s.t.Close()
	t := datatree.LoadTree(s.buf(), s.blk(), s.dir)
	s.t = t
	s.reopens++
	if n := t.DeactivedSNListSize(); n != 0 {
		failf("a loaded tree has %d pending deactivations", n)
	}
	s.checkAll(r, "after loading")
	if r.Chance(50) {
		if root := s.t.EndBlock(); root != s.m.root {
			failf("the root after loading is %x, want %x", root, s.m.root)
		}
		s.t.WaitForFlushing()
	}
}

type shortReader struct {
	io.Reader
	r *Rand
}

func (s *shortReader) Read(b []byte) (int, error) {
	if len(b) > 1 {
		b = b[:1+s.r.Intn(len(b))]
	}
	return s.Reader.Read(b)
}

const twigRecord, nodeRecord, yRecord = 8 + 8 + 256 + 4*32 + 2*32 + 3*32 + 4, 44, 4096*32 + 4

// damage: every altered byte and every cut record must be noticed
func (s *treeSess) damage() {
	if !s.atBlockEnd() {
		s.endBlock()
	}
	s.t.SaveMemToDisk()
	s.t.WaitForFlushing()
	s.t.Close()
	names := []string{"twigs.dat", "nodes.dat", "mtree4YT.dat"}
	recs := []int{twigRecord, nodeRecord, yRecord}
	orig := make([][]byte, 3)
	for i, n := range names {
		b, err := os.ReadFile(filepath.Join(s.dir, n))
		if err != nil {
			failf("saving leaves no file %s: %v", n, err)
		}
		if len(b) == 0 || len(b)%recs[i] != 0 {
			failf("file %s has %d bytes, which are no records of %d", n, len(b), recs[i])
		}
		orig[i] = b
	}
	put := func(i int, b []byte) {
		if err := os.WriteFile(filepath.Join(s.dir, names[i]), b, 0700); err != nil {
			infraf("%v", err)
		}
	}
	load := func() (err interface{}) {
		defer func() { err = recover() }()
		t := datatree.LoadTree(s.buf(), s.blk(), s.dir)
		t.Close()
		return nil
	}
	for _, d := range s.c.Damage {
		i := abs(d[0]) % 3
		b := append([]byte{}, orig[i]...)
		what := ""
		if abs(d[0])/3%2 == 0 {
			at, x := abs(d[1])%len(b), byte(1+abs(d[2])%255)
			b[at] ^= x
			what = fmt.Sprintf("byte %d of %s (%d bytes) xored with %d", at, names[i], len(b), x)
		} else {
			n := len(b) - 1 - abs(d[1])%(recs[i]-1) // within the last record
			if abs(d[2])%2 == 0 {
				n = abs(d[1]) % len(b)
			}
			if n%recs[i] == 0 {
				n++
			}
			what = fmt.Sprintf("%s cut from %d to %d bytes", names[i], len(b), n)
			b = b[:n]
		}
		put(i, b)
		if load() == nil {
			failf("a tree is loaded although %s", what)
		}
		put(i, orig[i])
		s.env.Label("damaged " + names[i])
	}
	if e := load(); e != nil {
		failf("the undamaged tree is not loaded: %v", e)
	}
	// the record readers accept any reader
	r := newRand("short", s.c.First)
	wrap := func(b []byte) io.Reader {
		switch r.Intn(3) {
		case 0:
			return &shortReader{bytes.NewReader(b), r}
		case 1:
			return iotest.DataErrReader(bytes.NewReader(b))
		}
		return iotest.HalfReader(bytes.NewReader(b))
	}
	in := wrap(orig[0])
	var w bytes.Buffer
	n := 0
	for {
		id, twig, err := datatree.LoadTwigFromFile(in)
		if err == io.EOF {
			break
		}
		if err != nil {
			failf("reading twig record %d in pieces fails: %v", n, err)
		}
		if err := twig.Dump(id, &w); err != nil {
			failf("%v", err)
		}
		n++
	}
	if !bytes.Equal(w.Bytes(), orig[0]) {
		failf("twig records read in pieces and written again differ")
	}
	s.largeRecords(r, orig[0])
	t := datatree.NewEmptyTree(4096, 4096, mkdir(s.env.TempDir("empty")), "")
	if err := t.LoadMtree4YT(wrap(orig[2])); err != nil {
		failf("reading the youngest twig's tree in pieces fails: %v", err)
	}
	w.Reset()
	if err := t.DumpMtree4YT(&w); err != nil || !bytes.Equal(w.Bytes(), orig[2]) {
		failf("the youngest twig's tree read in pieces and written again differs")
	}
	if err := t.LoadNodes(wrap(orig[1])); err != nil {
		failf("reading the nodes in pieces fails: %v", err)
	}
	t.Close()
}

// bigInt is a non-negative number of any size, of at most bits bits.
func bigInt(r *Rand, bits int) int64 {
	n := uint(r.Range(1, bits))
	switch r.Intn(4) {
	case 0:
		return 1<<n - 1
	case 1:
		return 1 << (n - 1)
	}
	return int64(r.Uint64() >> (64 - n))
}

// largeRecords: twigs and nodes far to the right, as a tree has them after years.
func (s *treeSess) largeRecords(r *Rand, twigs []byte) {
	var w bytes.Buffer
	in := bytes.NewReader(twigs)
	type rec struct {
		id   int64
		twig datatree.Twig
	}
	var recs []rec
	for {
		_, twig, err := datatree.LoadTwigFromFile(in)
		if err != nil {
			break
		}
		twig.FirstEntryPos = bigInt(r, 62)
		recs = append(recs, rec{bigInt(r, 50), twig})
		if err := twig.Dump(recs[len(recs)-1].id, &w); err != nil {
			failf("%v", err)
		}
	}
	in = bytes.NewReader(w.Bytes())
	for i, x := range recs {
		id, twig, err := datatree.LoadTwigFromFile(in)
		if err != nil || id != x.id || twig != x.twig {
			failf("twig record %d, saved for twig %d with first entry position %d, loads as twig %d with position %d (equal content %v, error %v)", i, x.id, x.twig.FirstEntryPos, id, twig.FirstEntryPos, twig == x.twig, err)
		}
	}
	// nodes
	var want []string
	w.Reset()
	have := map[datatree.NodePos]bool{datatree.Pos(datatree.FirstLevelAboveTwig, 0): true}
	for i := 0; i < 1+r.Intn(20); i++ {
		level, n := r.Range(datatree.FirstLevelAboveTwig, 63), bigInt(r, 50)
		pos := datatree.Pos(level, n)
		if pos.Level() != int64(level) || pos.Nth() != n {
			failf("node %d of level %d becomes node %d of level %d", n, level, pos.Nth(), pos.Level())
		}
		if have[pos] {
			continue
		}
		have[pos] = true
		one := datatree.EdgeNodesToBytes([]*datatree.EdgeNode{{Pos: pos, Value: r.Bytes(32)}})
		h := meow.New32(0)
		_, _ = h.Write(one)
		one = h.Sum(one)
		w.Write(one)
		want = append(want, string(one))
	}
	dir := mkdir(s.env.TempDir("nodes"))
	t := datatree.NewEmptyTree(4096, 4096, dir, "")
	if err := t.LoadNodes(&w); err != nil {
		failf("loading nodes fails: %v", err)
	}
	w.Reset()
	if err := t.DumpNodes(&w); err != nil {
		failf("%v", err)
	}
	t.Close()
	got := map[string]bool{}
	for b := w.Bytes(); len(b) >= nodeRecord; b = b[nodeRecord:] {
		got[string(b[:nodeRecord])] = true
	}
	for _, x := range want {
		if !got[x] {
			failf("a node record which was loaded is not saved again: %s", hx([]byte(x)))
		}
	}
	if len(got) > len(want)+1 {
		failf("%d node records are saved, %d were loaded", len(got), len(want))
	}
}

// edgeCodec: encoding and decoding of edge nodes at any position.
func edgeCodec(r *Rand) {
	var l []*datatree.EdgeNode
	for i := 0; i < r.Intn(30); i++ {
		l = append(l, &datatree.EdgeNode{Pos: datatree.Pos(r.Range(datatree.FirstLevelAboveTwig-1, 63), bigInt(r, 50)), Value: r.Bytes(32)})
	}
	g := datatree.BytesToEdgeNodes(datatree.EdgeNodesToBytes(l))
	if len(g) != len(l) {
		failf("%d edge nodes are decoded as %d", len(l), len(g))
	}
	for i := range l {
		if g[i].Pos != l[i].Pos || !bytes.Equal(g[i].Value, l[i].Value) {
			failf("edge node %d-%d is decoded as %d-%d", l[i].Pos.Level(), l[i].Pos.Nth(), g[i].Pos.Level(), g[i].Pos.Nth())
		}
	}
}

func (s *treeSess) step(op TOp, mode string) {
	s.seq++
	r := newRand("op", op.S, s.seq)
	m := s.m
	if len(m.ents) > (26+clampInt(s.c.More, 0, 600))*2048 && op.T != 4 {
		return
	}
	switch abs(op.T) % 7 {
	case 0:
		n := clampInt(op.N, 0, 6000)
		mode := r.Intn(3)
		for i := 0; i < n; i++ {
			if r.Intn(100) < op.P {
				lo, hi := 0, len(m.ents)
				switch mode {
				case 1:
					lo = hi - 300
				case 2:
					hi = int(m.oldest+2) << 11
				}
				if sn, ok := s.pick(r, lo, hi); ok {
					s.deactivate(sn)
				}
			}
			s.append(r, r.Intn(100) < 2)
		}
	case 1:
		s.endBlock()
	case 2:
		if s.canEvict() {
			if op.N%3 != 0 { // mostly emptied before
				lo := int(m.oldest) << 11
				for sn := lo; sn < lo+2048; sn++ {
					if m.ents[sn].active && !r.Chance(4) {
						s.deactivate(int64(sn))
					}
				}
			}
			s.evict()
			if op.S%5 != 0 {
				s.endBlock()
			}
		}
	case 3:
		if s.atBlockEnd() {
			s.prune(op)
		}
	case 4:
		switch mode {
		case "recover":
			s.recover(op)
		case "load":
			s.reload(op)
		}
	case 5:
		if m.youngest() > m.oldest {
			lo := (int(m.oldest) + abs(op.N)%int(m.youngest()-m.oldest)) << 11
			for i := 0; i < 2048; i++ {
				if m.ents[lo+i].active && r.Intn(100) < op.P {
					s.deactivate(int64(lo + i))
				}
			}
		}
	case 6:
		if s.atBlockEnd() && mode == "recover" {
			s.mark = m.clone()
		}
	}
}

func runTree(cs interface{}, env *Env, mode string) {
	c := cs.(*TreeCase)
	s := newTreeSess(c, env)
	for _, op := range c.Ops {
		s.step(op, mode)
	}
	if !s.atBlockEnd() {
		s.endBlock()
	}
	s.t.WaitForFlushing()
	r := newRand("fin", c.First)
	switch mode {
	case "recover":
		s.recover(TOp{S: c.First})
	case "load":
		s.reload(TOp{S: c.First})
	default:
		s.checkAll(r, "at the end")
	}
	// goes on
	for i := 0; i < 40; i++ {
		s.append(r, false)
	}
	s.endBlock()
	if s.canEvict() {
		s.evict()
		s.endBlock()
	}
	s.t.WaitForFlushing()
	if mode == "load" {
		s.damage()
	} else {
		s.t.Close()
	}
	env.LabelN("twigs evicted", s.evicted)
	env.LabelN("prunes", s.prunes)
	env.LabelN("blocks", s.blocks)
	if s.m.lastPruned%2 == 0 && s.prunes > 0 {
		env.Label("odd prune end")
	}
	env.LabelN("twigs", int(s.m.youngest()))
	for _, n := range []int64{32, 64, 128, 256} {
		if s.m.youngest() >= n {
			env.Label(fmt.Sprintf("case:twigs>=%d", n))
		}
	}
	if s.evicted > 0 && (mode == "" || s.reopens > 0) {
		env.Nontrivial()
	}
}

func genTree(r *Rand, idx int, mode string, thorough bool) *TreeCase {
	c := &TreeCase{Buf: []int{4096, 8192, 16384, 65536, 1 << 20}[r.Intn(5)], First: r.Intn(3000), Val: []int{0, 10, 40, 150, 300}[r.Intn(5)]}
	c.Mul = clampInt([]int{8 << 10, 64 << 10, 200 << 10, 1 << 20, 4 << 20}[r.Intn(5)]/c.Buf, 1, 256)
	if mode != "load" && r.Chance(60) {
		c.Suffix = ".3"
	}
	n := 4 + r.Intn(24)
	if thorough && r.Chance(30) {
		n = 20 + r.Intn(60)
	}
	if idx%60 == 13 { // a tree with many twigs
		c.Val, c.More = []int{0, 0, 10}[r.Intn(3)], 600
		k := r.Range(12, 60)
		if thorough && r.Chance(20) {
			k = r.Range(60, 240)
		}
		ev := []int{0, 2, 3, 4}[r.Intn(4)]
		for i := 0; i < k; i++ {
			c.Ops = append(c.Ops, TOp{T: 0, N: 5000 - r.Intn(3)*r.Intn(900), P: []int{0, 60, 95}[r.Intn(3)], S: r.Intn(1 << 20)}, TOp{T: 1})
			for j := 0; j < ev; j++ {
				if r.Chance(80) {
					c.Ops = append(c.Ops, TOp{T: 2, N: r.Intn(1 << 10), S: r.Intn(1 << 20)})
				}
			}
			if r.Chance(60) {
				c.Ops = append(c.Ops, TOp{T: 1})
			}
			if r.Chance(20) {
				c.Ops = append(c.Ops, TOp{T: 3, N: r.Intn(1 << 20), S: r.Intn(1 << 20)})
			}
			if mode != "" && (r.Chance(4) || i == k-2) {
				c.Ops = append(c.Ops, TOp{T: 4, S: r.Intn(1 << 20)})
			}
		}
		c.Ops = append(c.Ops, TOp{T: 1})
		if mode != "load" {
			return c
		}
		n = 2
	}
	evictBias := []int{10, 25, 45}[r.Intn(3)]
	if r.Chance(50) { // a phase of growth and eviction with prunings
		c.Val = []int{0, 10, 40}[r.Intn(3)]
		for i := 0; i < 4+r.Intn(7); i++ {
			c.Ops = append(c.Ops, TOp{T: 0, N: 2048 + r.Intn(2500), P: []int{0, 20, 60}[r.Intn(3)], S: r.Intn(1 << 20)}, TOp{T: 1})
			for r.Chance(65) {
				c.Ops = append(c.Ops, TOp{T: 2, N: r.Intn(1 << 10), S: r.Intn(1 << 20)})
			}
			c.Ops = append(c.Ops, TOp{T: 1})
			if r.Chance(40) {
				c.Ops = append(c.Ops, TOp{T: 3, N: r.Intn(1 << 20), S: r.Intn(1 << 20)})
			}
			if mode != "" && r.Chance(15) {
				c.Ops = append(c.Ops, TOp{T: 4, S: r.Intn(1 << 20)})
			}
		}
		n /= 2
	}
	for i := 0; i < n; i++ {
		op := TOp{S: r.Intn(1 << 20), N: r.Intn(1 << 20)}
		switch x := r.Intn(100); {
		case x < evictBias:
			op.T = 2
		case x < 65:
			op.T = 0
			op.N = []int{1, 5, 60, 511, 513, 700, 2048, 2049, 3000, 5000}[r.Intn(10)]
			op.P = []int{0, 0, 5, 40, 90}[r.Intn(5)]
		case x < 75:
			op.T = 1
		case x < 83:
			op.T = 3
		case x < 90:
			op.T = 4
			if mode == "" {
				op.T = 1
			}
		case x < 95:
			op.T = 5
			op.P = []int{1, 30, 95, 100}[r.Intn(4)]
		default:
			op.T = 6
		}
		c.Ops = append(c.Ops, op)
		if op.T == 0 && r.Chance(60) {
			c.Ops = append(c.Ops, TOp{T: 1})
		}
	}
	if mode == "load" {
		for i := 0; i < 6+r.Intn(10); i++ {
			c.Damage = append(c.Damage, [3]int{r.Intn(6), r.Intn(1 << 24), r.Intn(1 << 16)})
		}
	}
	return c
}

func init() {
	pre := []string{"at most 255 deactivated numbers are pending when an entry is appended, none when a block ends, and the first block has a whole twig, as in the database", "SHA-256 is collision free"}
	mk := func() interface{} { return &TreeCase{} }
	gen := func(mode string) func(*Rand, int, bool) interface{} {
		return func(r *Rand, idx int, th bool) interface{} { return genTree(r, idx, mode, th) }
	}
	run := func(mode string) func(interface{}, *Env) {
		return func(c interface{}, e *Env) { runTree(c, e, mode) }
	}
	register(&Check{
		ID: "D04", Quick: 1200, Thorough: 60000, PerProc: 20, Assumptions: pre, New: mk, Gen: gen(""), Run: run(""),
		Rule: "histories of appends, raw appends, deactivations near and far, evictions, prunings and block ends over 1 to 26 twigs, in some over up to 140 (500 in the thorough tier); the root is recomputed from scratch after each block by a reference, and proofs of sampled numbers are verified by it and offered other entry bytes; non-trivial: a twig was evicted",
	})
	register(&Check{
		ID: "D05", Quick: 1000, Thorough: 60000, PerProc: 20, Assumptions: pre, New: mk, Gen: gen("recover"), Run: run("recover"),
		Rule: "such histories where the files are copied after a block end (or after further blocks), garbage and further segments are appended, and the tree is recovered from the copy: root, active bits, scan, positions, sizes and proofs are compared with the model, and the history goes on with the recovered tree; non-trivial: a twig was evicted and the tree recovered",
	})
	register(&Check{
		ID: "D06", Quick: 1000, Thorough: 50000, PerProc: 20, Assumptions: pre, New: mk, Gen: gen("load"), Run: run("load"),
		Rule: "such histories where the memory is saved and loaded again and the history goes on; then single bytes of the saved files are changed or their records cut, which must be refused, and records are read through readers that return pieces; non-trivial: a twig was evicted and the tree loaded",
	})
}
