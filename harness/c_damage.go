package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	moeingads "github.com/smartbch/moeingads"
	"github.com/smartbch/moeingads/datatree"
	"github.com/smartbch/moeingads/indextree"
	"github.com/smartbch/moeingads/metadb"
)

// E01: stored files are altered; opening notices, or the state is what it was.

// DmgOp: K kind, the rest picks the place and the change.
type DmgOp struct {
	K, A, B, C int
}

type DmgCase struct {
	Cfg  MCfg
	Ops  []MOp
	More int     // blocks run after opening altered files
	Dmg  []DmgOp // alterations of the closed database, one copy each
	Live []DmgOp // alterations under the open database, undone again
}

const (
	dmgRecord  = iota // a byte of an entry record that recovery needs
	dmgField          // a byte of a value, next key or height
	dmgSN             // a listed serial number replaced by another
	dmgSwap           // a record overwritten by another of the same length
	dmgZero           // a range zeroed
	dmgOld            // a byte of records recovery does not need, or padding
	dmgRoot           // the stored root of a retired twig
	dmgFirst          // position and checksum at the head of a stored twig
	dmgNode           // any other stored tree node
	dmgNoSeg          // an entry segment removed
	dmgCut            // an entry segment cut
	dmgNoTwigs        // a twig segment removed
	dmgCutTwig        // a twig segment cut
	dmgShards         // the entry files of two shards exchanged
	dmgLength         // a byte of a record's count or length
	numDmg
)

var dmgNames = []string{"record", "field", "deactivated-number", "stale-record", "zeroed", "unneeded-bytes", "retired-root", "first-position", "tree-node", "entry-segment-missing", "entry-segment-cut", "twig-segment-missing", "twig-segment-cut", "shards-exchanged", "record-length"}

type dRec struct {
	pos, end int64 // without padding
	next     int64
	sn       int64
	key      string
	nsn      int
}

type dShard struct {
	recs     []dRec
	oldest   int64
	youngest int64
	pruned   int64
	twigSize int64
}

type dLayout struct {
	dir    string
	bs     int64
	shards [8]dShard
}

func segName(dir string, id, bs int64) string {
	return filepath.Join(dir, fmt.Sprintf("%d-%d", id, bs))
}

func (l *dLayout) entries(sh int) string { return filepath.Join(l.dir, fmt.Sprintf("entries.%d", sh)) }
func (l *dLayout) twigs(sh int) string   { return filepath.Join(l.dir, fmt.Sprintf("twigmt.%d", sh)) }

// rw reads (or with write set, writes) bytes at an offset in the unit that begins at a position of a segmented file;
// a unit lies in the segment it begins in, even beyond the segment's nominal end.
func (l *dLayout) rw(dir string, start, off int64, b []byte, write bool) bool {
	flag := os.O_RDONLY
	if write {
		flag = os.O_WRONLY
	}
	f, err := os.OpenFile(segName(dir, start/l.bs, l.bs), flag, 0)
	if err != nil {
		return false
	}
	defer f.Close()
	if write {
		_, err = f.WriteAt(b, start%l.bs+off)
	} else {
		_, err = f.ReadAt(b, start%l.bs+off)
	}
	return err == nil
}

func segIDs(dir string) (ids []int64) {
	ents, _ := os.ReadDir(dir)
	for _, e := range ents {
		if p := strings.Split(e.Name(), "-"); len(p) == 2 {
			if id, err := strconv.ParseInt(p[0], 10, 63); err == nil {
				ids = append(ids, id)
			}
		}
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	return
}

// scan finds the entry records on disk.
func (l *dLayout) scan(sh int) {
	s := &l.shards[sh]
	s.recs = nil
	dir := l.entries(sh)
	ids := segIDs(dir)
	if len(ids) == 0 {
		return
	}
	for n, id := range ids {
		all, err := os.ReadFile(segName(dir, id, l.bs))
		if err != nil {
			infraf("%v", err)
		}
		i := 0
		if n > 0 {
			if r := s.recs; len(r) > 0 && r[len(r)-1].next > id*l.bs {
				i = int(r[len(r)-1].next - id*l.bs)
			}
		}
		if n == 0 { // what lies before the first record ended in a segment pruned away
			for i+12 <= len(all) && !bytes.Equal(all[i:i+8], magic8) {
				i += 8
			}
		}
		for i+12 <= len(all) && bytes.Equal(all[i:i+8], magic8) {
			nsn := int(all[i+8])
			length := int(all[i+9]) | int(all[i+10])<<8 | int(all[i+11])<<16
			end := i + 12 + length + 8*nsn
			if end > len(all) {
				break
			}
			e, err := refDecodeEntry(all[i+8 : end])
			if err != nil {
				break
			}
			base := id * l.bs
			s.recs = append(s.recs, dRec{pos: base + int64(i), end: base + int64(end), next: base + int64((end+7)/8*8), sn: e.SN, key: string(e.Key), nsn: nsn})
			i = (end + 7) / 8 * 8
		}
	}
}

func (s *dShard) needed() []dRec {
	i := sort.Search(len(s.recs), func(i int) bool { return s.recs[i].sn>>11 >= s.oldest })
	return s.recs[i:]
}

func newLayout(dir string, bs int64) *dLayout {
	l := &dLayout{dir: dir, bs: bs}
	for i := range l.shards {
		l.scan(i)
	}
	return l
}

func (l *dLayout) meta(m *metadb.MetaDB) {
	for i := range l.shards {
		l.shards[i].oldest = m.GetOldestActiveTwigID(i)
		l.shards[i].youngest = m.GetYoungestTwigID(i)
		l.shards[i].pruned = m.GetLastPrunedTwig(i)
		l.shards[i].twigSize = m.GetTwigMtFileSize(i)
	}
}

// change alters one byte.
func (l *dLayout) change(dir string, pos, off int64, c int) bool {
	var b [1]byte
	if !l.rw(dir, pos, off, b[:], false) {
		return false
	}
	switch abs(c) % 4 {
	case 0:
		b[0] ^= 1 << uint(abs(c/4)%8)
	case 1:
		b[0]++
	case 2:
		b[0]--
	case 3:
		b[0] ^= byte(1 + abs(c/4)%255)
	}
	return l.rw(dir, pos, off, b[:], true)
}

func (s *dShard) hasUser() bool {
	for _, r := range s.recs {
		if r.key != "dummy" && len(r.key) == 8 && strings.Trim(r.key, "\x00") != "" && strings.Trim(r.key, "\xff") != "" {
			return true
		}
	}
	return false
}

func pickRec(rs []dRec, a int) *dRec {
	if len(rs) == 0 {
		return nil
	}
	if a%3 == 0 { // among the youngest
		n := len(rs)
		if n > 40 {
			rs = rs[n-40:]
		}
	}
	return &rs[abs(a/3)%len(rs)]
}

// alter applies a damage to the copy; it reports what it did and whether the process may die of it after opening.
func (l *dLayout) alter(d DmgOp) (what string, soft, ok bool) {
	sh := abs(d.A) % 8
	for i := 0; i < 8 && l.shards[sh].oldest == 0 && d.K >= dmgRoot && d.K <= dmgFirst; i++ {
		sh = (sh + 1) % 8
	}
	if d.K < dmgRoot && d.B%5 > 0 { // mostly where there is something to alter
		for i := 0; i < 8 && !l.shards[sh].hasUser(); i++ {
			sh = (sh + 1) % 8
		}
	}
	s := &l.shards[sh]
	ed, td := l.entries(sh), l.twigs(sh)
	user := func() []dRec { // records with keys of users, if there are such
		var rs []dRec
		for _, r := range s.needed() {
			if r.key != "dummy" {
				rs = append(rs, r)
			}
		}
		if len(rs) == 0 {
			return s.needed()
		}
		return rs
	}
	stored := s.twigSize / datatree.TwigMtSize
	switch abs(d.K) % numDmg {
	case dmgRecord:
		rs := s.needed()
		if d.C%3 > 0 {
			rs = user()
		}
		r := pickRec(rs, d.B)
		if r == nil {
			return
		}
		n := r.end - r.pos
		off := int64(abs(d.C/3)) % n
		switch d.C % 5 {
		case 0:
			off %= 8
		case 1:
			off = 12 + off%8%(n-12)
		case 2:
			off = n - 1 - off%24
		}
		if off >= 8 && off < 12 {
			off += 4
		}
		return fmt.Sprintf("byte %d of the record of serial number %d in shard %d", off, r.sn, sh), false, l.change(ed, r.pos, off, d.C)
	case dmgLength:
		r := pickRec(user(), d.B)
		if r == nil {
			return
		}
		off := int64(8 + abs(d.C/4)%4)
		if d.B%4 > 0 { // the lowest byte of the length by a little: within the padding
			off = 9
			var b [1]byte
			if !l.rw(ed, r.pos, off, b[:], false) {
				return
			}
			delta := 1 + abs(d.C/4)%7
			if d.C%2 == 0 {
				delta = -delta
			}
			b[0] += byte(delta)
			return fmt.Sprintf("byte %d of the record of serial number %d in shard %d", off, r.sn, sh), false, l.rw(ed, r.pos, off, b[:], true)
		}
		return fmt.Sprintf("byte %d of the record of serial number %d in shard %d", off, r.sn, sh), false, l.change(ed, r.pos, off, d.C)
	case dmgField:
		r := pickRec(user(), d.B)
		if r == nil {
			return
		}
		b := make([]byte, r.end-r.pos)
		if !l.rw(ed, r.pos, 0, b, false) {
			return
		}
		e, err := refDecodeEntry(b[8:])
		if err != nil {
			return
		}
		tail := int64(8 * r.nsn)
		off := r.end - r.pos - tail - 24 + int64(abs(d.C/5))%16 // height, last height
		if d.C%5 == 0 && len(e.NextKey) > 0 {
			off = r.end - r.pos - tail - 24 - 1 - int64(abs(d.C/5))%int64(len(e.NextKey))
		}
		if d.C%5 >= 2 && len(e.Value) > 0 {
			off = r.end - r.pos - tail - 24 - int64(len(e.NextKey)) - 4 - 1 - int64(abs(d.C/5))%int64(len(e.Value))
		}
		return fmt.Sprintf("byte %d (a field) of the record of serial number %d in shard %d", off, r.sn, sh), false, l.change(ed, r.pos, off, d.C)
	case dmgSN:
		var rs []dRec
		for _, r := range s.needed() {
			if r.nsn > 0 {
				rs = append(rs, r)
			}
		}
		r := pickRec(rs, d.B)
		if r == nil {
			return
		}
		off := r.end - r.pos - 8*int64(1+abs(d.C)%r.nsn)
		var b [8]byte
		if !l.rw(ed, r.pos, off, b[:], false) {
			return
		}
		old := int64(binary.LittleEndian.Uint64(b[:]))
		sn := old + int64(abs(d.C/7)%5) - 2
		if sn == old {
			sn = int64(abs(d.C)) % (r.sn + 1)
		}
		if sn == old || sn < 0 {
			return
		}
		binary.LittleEndian.PutUint64(b[:], uint64(sn))
		return fmt.Sprintf("deactivated serial number %d replaced by %d in the record of %d in shard %d", old, sn, r.sn, sh), false, l.rw(ed, r.pos, off, b[:], true)
	case dmgSwap:
		rs := s.needed()
		x := pickRec(rs, d.B)
		if x == nil {
			return
		}
		var same []dRec
		for _, y := range s.recs {
			if y.next-y.pos == x.next-x.pos && y.pos != x.pos {
				same = append(same, y)
			}
		}
		y := pickRec(same, d.C)
		if y == nil {
			return
		}
		b, c := make([]byte, y.next-y.pos), make([]byte, y.next-y.pos)
		if !l.rw(ed, y.pos, 0, b, false) || !l.rw(ed, x.pos, 0, c, false) || bytes.Equal(b, c) {
			return
		}
		return fmt.Sprintf("the record of serial number %d in shard %d overwritten by that of %d", x.sn, sh, y.sn), false, l.rw(ed, x.pos, 0, b, true)
	case dmgZero:
		r := pickRec(s.needed(), d.B)
		if r == nil {
			return
		}
		n := []int64{1, 8, 64, 512, 4096}[abs(d.C)%5]
		off := int64(abs(d.C/5)) % (r.end - r.pos)
		st, err := os.Stat(segName(ed, r.pos/l.bs, l.bs))
		if err != nil {
			return
		}
		if left := st.Size() - r.pos%l.bs - off; n > left {
			n = left
		}
		b := make([]byte, n)
		return fmt.Sprintf("%d bytes from %d on zeroed in shard %d", n, r.pos+off, sh), false, l.rw(ed, r.pos, off, b, true)
	case dmgOld:
		var at [][2]int64
		nd := s.needed()
		for _, r := range s.recs[:len(s.recs)-len(nd)] {
			at = append(at, [2]int64{r.pos, int64(abs(d.C)) % (r.next - r.pos)})
		}
		for _, r := range nd {
			if r.next > r.end {
				at = append(at, [2]int64{r.pos, r.end - r.pos})
			}
		}
		if len(at) == 0 {
			return
		}
		p := at[abs(d.B)%len(at)]
		return fmt.Sprintf("byte %d of the entries of shard %d (not needed)", p[0]+p[1], sh), false, l.change(ed, p[0], p[1], d.C)
	case dmgRoot:
		lo := s.pruned + 1
		if lo >= s.oldest {
			return
		}
		twig := lo + int64(abs(d.B))%(s.oldest-lo)
		return fmt.Sprintf("the stored root of the retired twig %d of shard %d", twig, sh), false, l.change(td, twig*datatree.TwigMtSize+12, int64(abs(d.C/8))%32, d.C)
	case dmgFirst:
		if stored == 0 {
			return
		}
		twig := s.oldest
		if d.B%3 == 0 || twig >= stored {
			twig = int64(abs(d.B/3)) % stored
		}
		if d.C%4 == 0 { // another position, with the old checksum
			if len(s.recs) == 0 {
				return
			}
			var b, c [8]byte
			binary.LittleEndian.PutUint64(b[:], uint64(s.recs[abs(d.C/4)%len(s.recs)].pos))
			if !l.rw(td, twig*datatree.TwigMtSize, 0, c[:], false) || b == c {
				return
			}
			return fmt.Sprintf("first position of twig %d of shard %d replaced", twig, sh), false, l.rw(td, twig*datatree.TwigMtSize, 0, b[:], true)
		}
		return fmt.Sprintf("first position of twig %d of shard %d", twig, sh), false, l.change(td, twig*datatree.TwigMtSize, int64(abs(d.C/8))%12, d.C)
	case dmgNode:
		if stored == 0 {
			return
		}
		twig := int64(abs(d.B)) % stored
		off := int64(abs(d.C/4)) % (datatree.TwigMtSize - 12)
		return fmt.Sprintf("tree byte %d of twig %d of shard %d", off, twig, sh), false, l.change(td, twig*datatree.TwigMtSize+12+off/32*32, off%32, d.C)
	case dmgNoSeg, dmgNoTwigs, dmgCut, dmgCutTwig:
		dir := ed
		if d.K%numDmg == dmgNoTwigs || d.K%numDmg == dmgCutTwig {
			dir, soft = td, true
		}
		ids := segIDs(dir)
		if len(ids) == 0 {
			return
		}
		id := ids[abs(d.B)%len(ids)]
		if d.B%2 == 0 {
			id = ids[len(ids)-1]
		}
		if d.K%numDmg == dmgNoSeg || d.K%numDmg == dmgNoTwigs {
			return fmt.Sprintf("segment %d of %s removed", id, filepath.Base(dir)), soft, os.Remove(segName(dir, id, l.bs)) == nil
		}
		st, err := os.Stat(segName(dir, id, l.bs))
		if err != nil || st.Size() == 0 {
			return
		}
		n := st.Size() - 1 - int64(abs(d.C))%st.Size()
		if d.C%2 == 0 {
			n = st.Size() - 1 - int64(abs(d.C/2))%64%st.Size()
		}
		return fmt.Sprintf("segment %d of %s cut from %d to %d bytes", id, filepath.Base(dir), st.Size(), n), soft, os.Truncate(segName(dir, id, l.bs), n) == nil
	case dmgShards:
		x := abs(d.B) % 8
		if x == sh {
			x = (x + 1) % 8
		}
		t := l.entries(sh) + ".tmp"
		if os.Rename(l.entries(sh), t) != nil || os.Rename(l.entries(x), l.entries(sh)) != nil || os.Rename(t, l.entries(x)) != nil {
			infraf("renaming failed")
		}
		return fmt.Sprintf("the entry files of shards %d and %d exchanged", sh, x), false, true
	}
	return
}

type dEntry struct {
	K, V, N []byte
	H, L    int64
}

type dWrite struct {
	K    []byte
	A, V int
}

type dBlock struct {
	Op MOp
	Ws []dWrite
}

// dExpect tells the subprocess what the database has to contain.
type dExpect struct {
	Cfg      MCfg
	Height   int64
	Blocks   int
	Root     []byte
	PrunedEv int64
	Entries  []dEntry
	Used     [][]byte
	More     []dBlock
	Roots    [][]byte
}

const (
	damageExitWrong = 40
)

func damageChild(args []string) {
	// dir expectation
	out := os.NewFile(3, "proto")
	say := func(t, m string) { _ = json.NewEncoder(out).Encode(wmsg{T: t, Msg: m}) }
	b, err := os.ReadFile(args[1])
	if err != nil {
		os.Exit(exitInfra)
	}
	var x dExpect
	if json.Unmarshal(b, &x) != nil {
		os.Exit(exitInfra)
	}
	st, en := guards(x.Cfg.Guard)
	a := &mSess{cfg: x.Cfg, env: &Env{labels: map[string]int{}}, dir: args[0], sns: map[string]int64{}, pruned: -1, prunedEv: x.PrunedEv, lastWalk: -2, rnd: newRand("damage", x.Cfg.Seed)}
	a.uni = &mUniverse{cfg: x.Cfg, start: st, end: en, cache: map[int]string{}}
	for i := range a.maxSN {
		a.maxSN[i] = -1
	}
	a.opt = mOpts{reads: true, chain: true}
	a.m = newModel(st, en)
	a.m.height, a.m.blocks = x.Height, x.Blocks
	for _, e := range x.Entries {
		a.m.cur[string(e.K)] = &mVersion{h: e.H, val: e.V, next: string(e.N), last: e.L}
		if !bytes.Equal(e.K, st) {
			a.m.sorted = append(a.m.sorted, string(e.K))
		}
	}
	for _, k := range x.Used {
		a.m.used[string(k)] = true
	}
	setParams(x.Cfg)
	go watchdog(100)
	db, err := moeingads.NewMoeingADS(args[0], x.Cfg.Hist, [][]byte{st, en})
	if err != nil {
		say("refused", err.Error())
		os.Exit(0)
	}
	say("opened", "")
	a.db = db
	defer func() {
		if e := recover(); e != nil {
			if v, ok := e.(violation); ok {
				say("wrong", v.msg)
			} else {
				say("wrong", fmt.Sprintf("panic after opening: %v\n%s", e, clip(panicStack(), 1500)))
			}
			os.Exit(damageExitWrong)
		}
	}()
	a.pos = "after opening the altered files"
	if got := db.GetCurrHeight(); got != x.Height {
		failf("the height is %d, it was %d", got, x.Height)
	}
	if got := db.GetRootHash(); !bytes.Equal(got, x.Root) {
		failf("the root hash is %x, it was %x", got, x.Root)
	}
	a.verify(true)
	bad := a.softProofs(60)
	for i, bl := range x.More {
		var ws []mWrite
		for _, w := range bl.Ws {
			ws = append(ws, mWrite{string(w.K), w.A, w.V})
		}
		a.pos = fmt.Sprintf("block %d after opening the altered files", i+1)
		a.block(bl.Op, ws)
		if got := a.roots[len(a.roots)-1]; !bytes.Equal(got, x.Roots[i]) {
			failf("%s: root %x, with the unaltered files it is %x", a.pos, got, x.Roots[i])
		}
	}
	a.pos = "at the end"
	a.verify(true)
	bad += a.softProofs(30)
	a.close()
	say("same", fmt.Sprint(bad))
	os.Exit(0)
}

// proofOrError asks for a proof of a live key: an error or panic (reported), or a proof of the current entry.
func (s *mSess) proofOrError(k string, what string) (refused bool, root [32]byte) {
	var entryBz, proof []byte
	var err error
	if panics(func() { entryBz, proof, err = s.db.GetProof([]byte(k)) }) || err != nil {
		return true, root
	}
	root, sn, active, err := refVerifyProof(entryBz, proof)
	if err != nil {
		failf("%s: GetProof(%x) reports no error and the proof does not verify: %v", what, k, err)
	}
	e, err := refDecodeEntry(entryBz)
	if err != nil || !active || e.SN != sn || string(e.Key) != k {
		failf("%s: GetProof(%x) reports no error and proves another entry (%v, serial number %d, active %v)", what, k, err, sn, active)
	}
	if v := s.m.cur[k]; v != nil && (!bytes.Equal(e.Value, v.val) || string(e.NextKey) != v.next) {
		failf("%s: GetProof(%x) proves %s, the value is %s", what, k, hx(e.Value), hx(v.val))
	}
	return false, root
}

func (s *mSess) softProofs(max int) (refused int) {
	var root [8][32]byte
	var have [8]bool
	ks := s.m.sorted
	for _, i := range s.rnd.Perm(len(ks)) {
		if max--; max < 0 {
			break
		}
		bad, r := s.proofOrError(ks[i], s.pos)
		if bad {
			refused++
			continue
		}
		sh := shardOf(ks[i])
		if have[sh] && root[sh] != r {
			failf("%s: two proofs in shard %d lead to different roots", s.pos, sh)
		}
		have[sh], root[sh] = true, r
	}
	all := true
	for _, h := range have {
		all = all && h
	}
	if all && !bytes.Equal(s.db.GetRootHash(), refCombineShards(root)) {
		failf("%s: the proofs do not lead to the root hash", s.pos)
	}
	return
}

// liveDamage alters stored bytes under the open database and asks for proofs.
func (s *mSess) liveDamage(ops []DmgOp) {
	bs := int64(s.cfg.Buf * 1024 * s.cfg.Mul)
	if len(ops) == 0 || len(s.m.sorted) == 0 {
		return
	}
	l := newLayout(s.dir, bs)
	latest := map[string]dRec{}
	for sh := range l.shards {
		for _, r := range l.shards[sh].recs {
			latest[r.key] = r
		}
	}
	for i, d := range ops {
		k := s.m.sorted[abs(d.A)%len(s.m.sorted)]
		r, ok := latest[k]
		if !ok {
			failf("there is no record of the live key %x on disk", k)
		}
		sh := shardOf(k)
		dir, pos, in := l.entries(sh), r.pos, int64(0)
		what := ""
		twig := r.sn >> 11
		stored := int64(len(l.shards[sh].recs)) > 0 && l.rw(l.twigs(sh), twig*datatree.TwigMtSize+datatree.TwigMtSize-32, 0, make([]byte, 32), false)
		node := d.K%2 == 1 && stored
		if node {
			dir = l.twigs(sh)
			id := int64(2048) + r.sn&2047
			lv := abs(d.B) % 12
			id >>= uint(lv)
			if id > 1 && d.C%4 > 0 {
				id ^= 1
			}
			if id >= 256 && id < 2048 { // not stored: one of the leaves below
				for id < 2048 {
					id = 2*id + int64(abs(d.C/4)&1)
				}
			}
			off := 12 + (id-1)*32
			if id >= 2048 {
				off -= datatree.IgnoredCount * 32
			}
			pos, in = twig*datatree.TwigMtSize+off, int64(abs(d.C/8))%32
			what = fmt.Sprintf("node %d of twig %d of shard %d", id, twig, sh)
		} else {
			in = int64(abs(d.B)) % (r.end - r.pos)
			what = fmt.Sprintf("byte %d of the record of %x", in, k)
		}
		old := make([]byte, 1)
		if !l.rw(dir, pos, in, old, false) || !l.change(dir, pos, in, d.C) {
			continue
		}
		if bad, _ := s.proofOrError(k, "with "+what+" altered on disk"); bad {
			s.env.Label("live:refused")
		} else {
			s.env.Label("live:proof-unaffected")
		}
		if !l.rw(dir, pos, in, old, true) {
			infraf("cannot restore a byte")
		}
		if bad, _ := s.proofOrError(k, "restored"); bad {
			failf("alteration %d (%s) undone: GetProof(%x) still fails", i, what, k)
		}
	}
}

func runE01(cs interface{}, env *Env) {
	c := cs.(*DmgCase)
	dir := filepath.Join(env.Dir, "db")
	s := newSess(c.Cfg, mOpts{}, env, dir)
	s.run(c.Ops)
	s.pos = "before closing"
	s.liveDamage(c.Live)
	s.verify(true)
	if len(c.Dmg) == 0 {
		s.close()
		return
	}
	root, height, blocks, pruned := s.db.GetRootHash(), s.m.height, s.m.blocks, s.prunedEv
	s.close()
	img0 := filepath.Join(env.Dir, "img0")
	copyDir(dir, img0)
	l0 := newLayout(img0, int64(s.cfg.Buf*1024*s.cfg.Mul))
	kv, err := indextree.NewRocksDB("rocksdb", dir)
	if err != nil {
		failf("the key-value store cannot be opened: %v", err)
	}
	m := metadb.NewMetaDB(kv)
	m.ReloadFromKVDB()
	l0.meta(m)
	m.Close()
	kv.Close()
	x := dExpect{Cfg: s.cfg, Height: height, Blocks: blocks, Root: root, PrunedEv: pruned}
	for k, v := range s.m.cur {
		x.Entries = append(x.Entries, dEntry{K: []byte(k), V: v.val, N: []byte(v.next), H: v.h, L: v.last})
	}
	sort.Slice(x.Entries, func(i, j int) bool { return bytes.Compare(x.Entries[i].K, x.Entries[j].K) < 0 })
	for k := range s.m.used {
		x.Used = append(x.Used, []byte(k))
	}
	// what follows with unaltered files
	s.open()
	n0 := len(s.roots)
	s.opt.beforeBlock = func(s *mSess, op MOp, ws []mWrite) {
		b := dBlock{Op: op}
		for _, w := range ws {
			b.Ws = append(b.Ws, dWrite{[]byte(w.k), w.action, w.v})
		}
		x.More = append(x.More, b)
	}
	r := newRand("more", c.Cfg.Seed)
	for i := 0; i < clampInt(c.More, 0, 10); i++ {
		var ws []mWrite
		for j := 0; j < 3+r.Intn(60); j++ {
			a := aSet
			if r.Chance(20) {
				a = aDel
			}
			k := s.uni.key(r.Intn(100000))
			if len(s.m.sorted) > 0 && r.Chance(75) {
				k = s.m.sorted[r.Intn(len(s.m.sorted))]
			}
			ws = append(ws, mWrite{k, a, r.Intn(1 << 20)})
		}
		s.block(MOp{}, ws)
	}
	x.Roots = s.roots[n0:]
	s.close()
	ef := filepath.Join(env.Dir, "expect.json")
	js, err := json.Marshal(&x)
	if err != nil {
		infraf("%v", err)
	}
	if err := os.WriteFile(ef, js, 0600); err != nil {
		infraf("%v", err)
	}
	refused, accepted := 0, 0
	for i, d := range c.Dmg {
		img := filepath.Join(env.Dir, fmt.Sprintf("img%d", i+1))
		copyDir(img0, img)
		l := *l0
		l.dir = img
		what, soft, ok := l.alter(d)
		if !ok {
			_ = os.RemoveAll(img)
			continue
		}
		name := dmgNames[abs(d.K)%numDmg]
		verdict, msg := openAltered(img, ef)
		switch verdict {
		case "refused":
			refused++
			env.Label("refused:" + name)
		case "same":
			accepted++
			env.Label("same-state:" + name)
			if msg != "0" {
				env.Label("same-state:some-proofs-refused")
			}
		case "wrong":
			if !soft {
				failf("alteration %d: %s: the database opens and goes wrong: %s", i, what, msg)
			}
			env.Label("cut-files:" + name)
		case "slow":
			env.Label("slow:" + name)
			_ = os.RemoveAll(img)
			return
		default:
			infraf("%s: %s", what, msg)
		}
		_ = os.RemoveAll(img)
	}
	if refused > 0 {
		env.Nontrivial()
	}
	env.LabelN("alterations", refused+accepted)
	labelSess(s)
}

// openAltered opens a directory in a subprocess.
func openAltered(img, ef string) (verdict, msg string) {
	cmd, proto, se, err := startChild([]string{"child", "damage", img, ef})
	if err != nil {
		return "infra", err.Error()
	}
	t := time.AfterFunc(100*time.Second, func() { _ = cmd.Process.Kill() })
	data, _ := io.ReadAll(proto)
	proto.Close()
	err = cmd.Wait()
	slow := !t.Stop()
	opened := false
	for _, line := range bytes.Split(data, []byte{'\n'}) {
		var m wmsg
		if json.Unmarshal(line, &m) != nil {
			continue
		}
		switch m.T {
		case "opened":
			opened = true
		default:
			return m.T, m.Msg
		}
	}
	if slow {
		return "slow", ""
	}
	res := classifyExit(err, string(se.buf))
	if res.status == "infra" && isInfraText(res.msg) || strings.Contains(res.msg, "killed by") {
		return "infra", res.msg
	}
	if opened {
		return "wrong", "it dies after opening: " + clip(res.msg, 2500)
	}
	if err == nil {
		return "infra", "no answer"
	}
	return "refused", res.msg
}

func genE01(r *Rand, idx int, thorough bool) interface{} {
	c := &DmgCase{Cfg: genCfg(r), More: r.Range(1, 4)}
	g := histGen{reopen: 4, prune: 4, concurrent: 10}
	switch {
	case idx%30 == 5:
		c.Ops = genChurn(r, &c.Cfg, histGen{reopen: 10, prune: 25}, 3, 26000)
	case idx%6 == 2: // blocks that fill twigs, retired and pruned afterwards
		c.Ops = genBigBlocks(r, &c.Cfg)
	case idx%3 == 0:
		c.Ops = genMedium(r, g)
	default:
		c.Ops = genSmall(r, g, 12)
	}
	n := r.Range(6, 14)
	if idx%30 == 5 {
		n = 16
	}
	for i := 0; i < n; i++ {
		c.Dmg = append(c.Dmg, DmgOp{K: r.Intn(numDmg), A: r.Intn(8), B: r.Intn(1 << 30), C: r.Intn(1 << 30)})
	}
	for i := 0; i < r.Range(10, 40); i++ {
		c.Live = append(c.Live, DmgOp{K: r.Intn(2), A: r.Intn(1 << 30), B: r.Intn(1 << 30), C: r.Intn(1 << 30)})
	}
	return c
}

func init() {
	childMains["damage"] = damageChild
	register(&Check{
		ID: "E01", Quick: 48, Thorough: 6000, PerProc: 6, CPULimit: 300,
		Rule:        "histories with compaction, pruning and reopening; then copies of the closed files altered in one place (record bytes, lengths, stale records, deactivated numbers, zeroed ranges, twig roots, positions, nodes, missing or cut segments, exchanged shards) and opened in a subprocess; and stored bytes altered under the open database while proofs are asked for; non-trivial: at least one alteration was refused",
		Assumptions: []string{"one place is altered at a time; the key-value store's own files are left alone", "an alteration of twig files by removing or cutting a segment may be noticed late"},
		New:         func() interface{} { return &DmgCase{} },
		Gen:         genE01,
		Run:         runE01,
	})
}
