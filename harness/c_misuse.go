package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"

	moeingads "github.com/smartbch/moeingads"
	"github.com/smartbch/moeingads/datatree"
	"github.com/smartbch/moeingads/indextree"
	"github.com/smartbch/moeingads/store"
	"github.com/smartbch/moeingads/store/rabbit"
	"github.com/smartbch/moeingads/store/types"
)

// G01: calls the interfaces forbid, in between of histories.

type MisCase struct {
	Kind int // 0 database, 1 stores, 2 index and key-value store, 3 files and tree, 4 a long history of a tree
	M    MCase
	S    SCase
	T    TreeCase
	N    int
	Seed int
}

type refuser struct {
	env *Env
	n   int
}

func (x *refuser) refuse(what string, f func()) {
	if !panics(f) {
		failf("not refused: %s", what)
	}
	x.n++
	x.env.Label("refused:" + what)
}

func (x *refuser) refuseErr(what string, f func() error) {
	if !panics(func() {
		if err := f(); err != nil {
			panic(err)
		}
	}) {
		failf("no error: %s", what)
	}
	x.n++
	x.env.Label("refused:" + what)
}

func misuseMads(c *MisCase, env *Env, x *refuser) {
	run := func(name string, bad bool) *mSess {
		s := newSess(c.M.Cfg, mOpts{reads: bad, chain: bad, proofs: bad}, env, filepath.Join(env.Dir, name))
		r := newRand("mis", c.Seed)
		fresh := func(written map[string]bool) []byte { // neither live nor prepared
			for i := 0; ; i++ {
				k := s.uni.key(500000 + r.Intn(100000) + i)
				if r.Chance(50) && i < 20 {
					k = s.uni.key(r.Intn(60))
				}
				if s.m.cur[k] == nil && !written[k] && k != s.m.start && k != s.m.end {
					return []byte(k)
				}
			}
		}
		some := func() []byte {
			if len(s.m.sorted) > 0 && r.Chance(70) {
				return []byte(s.m.sorted[r.Intn(len(s.m.sorted))])
			}
			return []byte(s.uni.key(r.Intn(60)))
		}
		if !bad {
			s.run(c.M.Ops)
			return s
		}
		s.opt.inBlock = func(s *mSess, written map[string]bool) {
			for i := 0; i < r.Intn(4); i++ {
				switch r.Intn(8) {
				case 0, 1:
					k := fresh(written)
					x.refuse("setting an unprepared key", func() { s.db.Set(k, []byte("v")) })
				case 2:
					x.refuse("reading an entry during a block", func() { s.db.GetEntry(some()) })
				case 3:
					x.refuse("asking for a proof during a block", func() { _, _, _ = s.db.GetProof(some()) })
				case 4:
					x.refuse("preparing an update during a block", func() { s.db.PrepareForUpdate(some()) })
				case 5:
					x.refuse("preparing a deletion during a block", func() { s.db.PrepareForDeletion(some()) })
				case 6:
					x.refuse("scanning during a block", func() { s.db.ScanAll(func(k, v []byte) {}) })
				case 7:
					x.refuse("checking consistency during a block", func() { s.db.CheckConsistency() })
				}
			}
		}
		for i, op := range c.M.Ops {
			s.pos = fmt.Sprintf("step %d", i)
			s.step(op)
			root := s.db.GetRootHash()
			for j := 0; j < r.Intn(4); j++ {
				switch r.Intn(5) {
				case 0:
					k := some() // perhaps prepared for an earlier block
					x.refuse("setting outside a block", func() { s.db.Set(k, []byte("v")) })
				case 1:
					k := fresh(nil)
					x.refuseErr("proof of an absent key", func() error { _, _, err := s.db.GetProof(k); return err })
				case 2:
					k := some()[:r.Intn(8)]
					x.refuse("reading a short key", func() { s.db.GetEntry(k) })
				case 3:
					k := some()[:r.Intn(8)]
					x.refuse("preparing an update of a short key", func() { s.db.PrepareForUpdate(k) })
				case 4:
					k := some()[:r.Intn(8)]
					x.refuse("preparing a deletion of a short key", func() { s.db.PrepareForDeletion(k) })
				}
			}
			if got := s.db.GetRootHash(); !bytes.Equal(got, root) {
				failf("%s: refused calls change the root hash", s.pos)
			}
		}
		s.pos = "end"
		s.verify(true)
		return s
	}
	a := run("db", true)
	b := run("plain", false)
	sameRoots(env, a.roots, b.roots, "with refused calls in between")
	a.close()
	b.close()
	labelSess(a)
}

func misuseStores(c *MisCase, env *Env, x *refuser) {
	r := newRand("mis", c.Seed)
	s := newSRoot(&c.S, env, "db")
	mock := c.S.Mock
	checkAll := func(what string) {
		s.pos = what
		s.checkRoot()
	}
	if !mock {
		x.refuse("a block without a height", func() { s.root.BeginWrite() })
		checkAll("after the refused block")
	}
	key := func() []byte { return []byte(s.uni.key(r.Intn(40))) }
	for i, op := range c.S.Ops {
		s.pos = fmt.Sprintf("step %d", i)
		s.trunkSession(op, false)
		// a block ends what was prepared but not written
		s.next(0)
		s.root.BeginWrite()
		s.root.EndWrite()
		switch r.Intn(6) {
		case 0: // a block with refused writes
			prep := map[string]bool{}
			var ks [][]byte
			for j := 0; j < r.Intn(4); j++ {
				k := key()
				s.root.PrepareForUpdate(k)
				prep[string(k)] = true
				ks = append(ks, k)
			}
			var bad []byte
			for n := 0; bad == nil; n++ {
				k := s.uni.key(r.Intn(40) + n)
				if _, live := s.m[k]; !live && !prep[k] {
					bad = []byte(k)
				}
			}
			s.used[string(bad)] = true
			s.next(0)
			s.root.BeginWrite()
			for _, k := range ks {
				v := s.value(r.Intn(1000))
				s.root.Set(k, append([]byte{}, v...))
				s.m[string(k)] = v
				s.used[string(k)] = true
			}
			x.refuse("setting an unprepared key in the root store", func() { s.root.Set(bad, []byte("never")) })
			if mock {
				m := s.root.(*store.MockRootStore)
				x.refuse("deleting an unprepared key in the stand-in", func() { m.Delete(bad) })
				x.refuse("reading the stand-in during a block", func() { m.Get(key()) })
				x.refuse("asking the stand-in for a key during a block", func() { m.Has(key()) })
				x.refuse("preparing in the stand-in during a block", func() { m.PrepareForUpdate(key()) })
				x.refuse("preparing a deletion in the stand-in during a block", func() { m.PrepareForDeletion(key()) })
			}
			s.root.EndWrite()
		case 1:
			if mock {
				m := s.root.(*store.MockRootStore)
				k := key()
				m.PrepareForUpdate(k)
				m.PrepareForDeletion(k)
				x.refuse("setting in the stand-in outside a block", func() { m.Set(k, []byte("never")) })
				x.refuse("deleting in the stand-in outside a block", func() { m.Delete(k) })
				m.BeginWrite()
				m.EndWrite()
			} else {
				k := key()
				x.refuse("setting in the root store outside a block", func() { s.root.Set(k, []byte("never")) })
			}
		case 2:
			if mock {
				break
			}
			ts := s.real.GetReadOnlyTrunkStore(10).(*store.TrunkStore)
			k := key()
			ts.PrepareForUpdate(k)
			ts.Update(func(db types.SetDeleter) { db.Set(k, []byte("mine")) })
			s.next(0)
			x.refuse("writing back a read-only trunk", func() { ts.Close(true) })
			s.cmp("Get of the read-only trunk", string(k), ts.Get(k), []byte("mine"), true)
			ts.Close(false)
			// what it prepared is dropped with the next block
			s.root.BeginWrite()
			s.root.EndWrite()
			s.used[string(k)] = true
		case 3: // a rabbit over a trunk
			ts := s.root.GetTrunkStore(10).(*store.TrunkStore)
			rs := rabbit.NewRabbitStore(ts)
			k := append([]byte("rabbit"), byte(r.Intn(3)))
			v := []byte(fmt.Sprint("value", r.Intn(100)))
			rs.Set(k, append([]byte{}, v...))
			x.refuse("writing back a rabbit before closing it", func() { rs.WriteBack() })
			s.cmp("rabbit Get", string(k), rs.Get(k), v, true)
			rs.Close()
			x.refuse("reading a closed rabbit", func() { rs.Get(append([]byte("other"), byte(i))) })
			x.refuse("asking a closed rabbit for a key", func() { rs.Has(append([]byte("other"), byte(i))) })
			x.refuse("setting in a closed rabbit", func() { rs.Set(append([]byte("other"), byte(i)), []byte("never")) })
			x.refuse("deleting in a closed rabbit", func() { rs.Delete(k) })
			rs.WriteBack()
			r2 := rabbit.NewRabbitStore(ts)
			s.cmp("rabbit Get after writing back", string(k), r2.Get(k), v, true)
			s.cmp("rabbit Get of a key refused", "other", r2.Get(append([]byte("other"), byte(i))), nil, false)
			r2.Close()
			ts.Close(false)
		case 4:
			ts := s.root.GetTrunkStore(10).(*store.TrunkStore)
			rs := rabbit.NewReadOnlyRabbitStore(ts)
			k := append([]byte("rabbit"), byte(r.Intn(3)))
			rs.Set(k, []byte("mine"))
			if r.Chance(50) {
				rs.Close()
				x.refuse("writing back a read-only rabbit", func() { rs.WriteBack() })
			} else {
				x.refuse("closing and writing back a read-only rabbit", func() { rs.CloseAndWriteBack(true) })
			}
			r2 := rabbit.NewRabbitStore(ts)
			s.cmp("rabbit Get after a refused write-back", string(k), r2.Get(k), nil, false)
			r2.Close()
			if n := ts.CacheSize(); n != 0 {
				failf("a refused write-back leaves %d keys in the trunk", n)
			}
			ts.Close(false)
		case 5: // a trunk is used while it is written back
			if mock {
				break
			}
			ts := s.root.GetTrunkStore(10).(*store.TrunkStore)
			k, k2 := key(), key()
			ts.PrepareForUpdate(k)
			ts.Update(func(db types.SetDeleter) { db.Set(k, []byte("value")) })
			s.next(0)
			var once sync.Once
			var calls []string
			during := func() {
				once.Do(func() {
					for what, f := range map[string]func(){
						"reading a trunk which is being written back":                 func() { ts.Get(k) },
						"updating a trunk which is being written back":                func() { ts.Update(func(db types.SetDeleter) { db.Set(k2, []byte("never")) }) },
						"preparing in a trunk which is being written back":            func() { ts.PrepareForUpdate(k2) },
						"preparing a deletion in a trunk which is being written back": func() { ts.PrepareForDeletion(k2) },
					} {
						if !panics(f) {
							what = "not refused: " + what
						}
						calls = append(calls, what)
					}
				})
			}
			s.onRule.Store(&during)
			ts.Close(true)
			s.onRule.Store(nil)
			for _, what := range calls {
				if strings.HasPrefix(what, "not refused") {
					failf("%s", what)
				}
				x.n++
				env.Label("refused:" + what)
			}
			s.m[string(k)], s.used[string(k)] = []byte("value"), true
			s.used[string(k2)] = true
		}
		s.checkRoot()
	}
	s.reopen()
	s.checkRoot()
	s.root.Close()
}

func misuseIndex(c *MisCase, env *Env, x *refuser) {
	r := newRand("mis", c.Seed)
	dir := mkdir(env.TempDir("kv"))
	db := openKV(dir)
	var hist *indextree.RocksDB
	if r.Chance(70) {
		hist = db
	}
	var tree *indextree.NVTreeMem
	if hist != nil {
		tree = indextree.NewNVTreeMem(hist)
	} else {
		tree = indextree.NewNVTreeMem(nil)
	}
	o := &orderedModel{m: map[uint64]int64{}}
	kv := map[string]string{}
	prof := r.Intn(4)
	key := func() uint64 { return btKey(prof, r.Intn(17), r.Intn(3)) }
	check := func(what string) {
		ks := o.keys()
		it := tree.Iterator(make([]byte, 8), bytes.Repeat([]byte{255}, 8))
		for i, k := range ks {
			if k == ^uint64(0) {
				continue
			}
			if !it.Valid() || binary.BigEndian.Uint64(it.Key()) != k || it.Value() != o.m[k] {
				failf("%s: item %d of the index is not %016x=%d", what, i, k, o.m[k])
			}
			it.Next()
		}
		if it.Valid() {
			failf("%s: the index has a key %x too many", what, it.Key())
		}
		it.Close()
		if n := tree.ActiveCount(); n != len(o.m) {
			failf("%s: the index counts %d keys, there are %d", what, n, len(o.m))
		}
		n := 0
		kit := db.Iterator([]byte("k"), []byte("l"))
		for ; kit.Valid(); kit.Next() {
			if v, ok := kv[string(kit.Key())]; !ok || v != string(kit.Value()) {
				failf("%s: the key-value store has %x=%x", what, kit.Key(), kit.Value())
			}
			n++
		}
		x.refuse("the key of an ended iterator", func() { kit.Key() })
		x.refuse("the value of an ended iterator", func() { kit.Value() })
		x.refuse("advancing an ended iterator", func() { kit.Next() })
		kit.Close()
		if n != len(kv) {
			failf("%s: the key-value store has %d keys, want %d", what, n, len(kv))
		}
	}
	height := int64(0)
	for i := 0; i < clampInt(c.N, 1, 60); i++ {
		at := fmt.Sprintf("step %d", i)
		// outside
		for j := 0; j < r.Intn(3); j++ {
			k := be(key())
			switch r.Intn(3) {
			case 0:
				x.refuse("setting in the index outside a session", func() { tree.Set(k, 77) })
			case 1:
				x.refuse("deleting in the index outside a session", func() { tree.Delete(k) })
			case 2:
				x.refuse("ending a session not begun", func() { tree.EndWrite() })
			}
		}
		height++
		db.OpenNewBatch()
		tree.BeginWrite(height)
		for j := 0; j < r.Intn(8); j++ {
			k := key()
			_, live := o.m[k]
			switch r.Intn(7) {
			case 0, 1, 2:
				v := int64(r.Intn(1 << 30))
				tree.Set(be(k), v*8)
				o.set(k, v*8)
			case 3:
				if live {
					tree.Delete(be(k))
					o.del(k)
				} else {
					x.refuse("deleting an absent key from the index", func() { tree.Delete(be(k)) })
				}
			case 4:
				x.refuse("reading the index during a session", func() { tree.Get(be(k)) })
			case 5:
				x.refuse("iterating the index during a session", func() { tree.Iterator(be(0), be(k)) })
			case 6:
				x.refuse("iterating the index backwards during a session", func() { tree.ReverseIterator(be(0), be(k)) })
			}
		}
		tree.EndWrite()
		db.CloseOldBatch()
		for j := 0; j < r.Intn(6); j++ {
			k := append([]byte("k"), byte(r.Intn(20)))
			v := r.Bytes(r.Intn(20))
			empty := [][]byte{nil, {}}[r.Intn(2)]
			switch r.Intn(9) {
			case 0:
				db.Set(k, v)
				kv[string(k)] = string(v)
			case 1:
				db.DeleteSync(k)
				delete(kv, string(k))
			case 2:
				x.refuse("writing an empty key", func() { db.Set(empty, v) })
				x.refuse("writing an empty key with sync", func() { db.SetSync(empty, v) })
			case 3:
				x.refuse("writing a nil value", func() { db.Set(k, nil) })
				x.refuse("writing a nil value with sync", func() { db.SetSync(k, nil) })
			case 4:
				x.refuse("reading an empty key", func() { db.Get(empty) })
			case 5:
				x.refuse("deleting an empty key", func() { db.Delete(empty) })
				x.refuse("deleting an empty key with sync", func() { db.DeleteSync(empty) })
			case 6, 7, 8:
				b := db.NewBatch()
				b.Set(k, v)
				if r.Chance(50) {
					x.refuse("an empty key in a batch", func() { b.Set(empty, v) })
					x.refuse("a nil value in a batch", func() { b.Set(k, nil) })
					x.refuse("deleting an empty key in a batch", func() { b.Delete(empty) })
				}
				if r.Chance(50) {
					b.Write()
				} else {
					b.WriteSync()
				}
				kv[string(k)] = string(v)
				if r.Chance(60) {
					x.refuse("writing a batch twice", func() { b.Write() })
					x.refuse("writing a batch twice with sync", func() { b.WriteSync() })
					x.refuse("adding to a written batch", func() { b.Set(append([]byte("k"), 200), v) })
					x.refuse("deleting in a written batch", func() { b.Delete(k) })
				}
				b.Close()
			}
		}
		check(at)
	}
	tree.Close()
	db.Close()
}

func misuseFiles(c *MisCase, env *Env, x *refuser) {
	r := newRand("mis", c.Seed)
	buf := []int{64, 256, 4096}[r.Intn(3)]
	mul := 1 + r.Intn(4)
	bs := buf * mul
	dir := mkdir(env.TempDir("files"))
	x.refuse("a segment size that is no multiple of the buffer", func() { _, _ = datatree.NewHPFile(buf, bs+1+r.Intn(buf-1), mkdir(env.TempDir("none"))) })
	open := func() *datatree.HPFile {
		f, err := datatree.NewHPFile(buf, bs, dir)
		if err != nil {
			failf("opening fails: %v", err)
		}
		f.InitPreReader()
		return f
	}
	f := open()
	type rec struct {
		pos  int64
		data []byte
	}
	var recs []rec
	size, pruned := int64(0), int64(0)
	check := func(what string) {
		if f.Size() != size {
			failf("%s: the size is %d, want %d", what, f.Size(), size)
		}
		for _, q := range recs {
			b := make([]byte, len(q.data))
			if q.pos/int64(bs) < pruned {
				x.refuseErr("reading pruned bytes", func() error { return f.ReadAt(b, q.pos, r.Chance(50)) })
				continue
			}
			if err := f.ReadAt(b, q.pos, r.Chance(50)); err != nil || !bytes.Equal(b, q.data) {
				failf("%s: the record at %d reads %s (%v), want %s", what, q.pos, hx(b), err, hx(q.data))
			}
		}
	}
	for i := 0; i < clampInt(c.N, 1, 60); i++ {
		at := fmt.Sprintf("step %d", i)
		d := r.Bytes(1 + r.Intn(buf))
		pos, err := f.Append([][]byte{d})
		if err != nil || pos != size {
			failf("%s: appended at %d (%v), want %d", at, pos, err, size)
		}
		recs = append(recs, rec{pos, d})
		size += int64(len(d))
		switch r.Intn(7) {
		case 0:
			big := make([]byte, buf+1+r.Intn(100))
			x.refuseErr("appending more than the buffer holds", func() error { _, err := f.Append([][]byte{big}); return err })
		case 1:
			f.Flush()
			check(at)
			x.refuseErr("truncating beyond the end", func() error { return f.Truncate(size + 1 + int64(r.Intn(2*bs))) })
			check(at)
		case 2:
			f.Flush()
			if err := f.Close(); err != nil {
				failf("closing fails: %v", err)
			}
			x.refuseErr("opening with another segment size", func() error { _, err := datatree.NewHPFile(buf, 2*bs, dir); return err })
			stray := filepath.Join(dir, []string{"x", "a-b", "1-2-3", fmt.Sprintf("q-%d", bs), "0-x", "0", fmt.Sprintf("-%d", bs)}[r.Intn(7)])
			if err := os.WriteFile(stray, nil, 0600); err != nil {
				infraf("%v", err)
			}
			x.refuseErr("opening a directory with a stray file", func() error { _, err := datatree.NewHPFile(buf, bs, dir); return err })
			_ = os.Remove(stray)
			f = open()
			check(at)
		case 3:
			f.Flush()
			if size/int64(bs) > pruned {
				pruned += 1 + r.Int63n(size/int64(bs)-pruned)
				if err := f.PruneHead(pruned * int64(bs)); err != nil {
					failf("pruning fails: %v", err)
				}
			}
			check(at)
		case 4:
			f.Flush()
			b := make([]byte, 1+r.Intn(50))
			x.refuseErr("reading beyond the end", func() error { return f.ReadAt(b, size+r.Int63n(int64(2*bs)), r.Chance(50)) })
			check(at)
		}
	}
	f.Flush()
	check("end")
	_ = f.Close()
	f = open()
	check("reopened")
	_ = f.Close()

	// entries
	ed := mkdir(env.TempDir("entries"))
	ef, err := datatree.NewEntryFile(4096, 4096*mul, ed)
	if err != nil {
		failf("%v", err)
	}
	var poss []int64
	var ents []*datatree.Entry
	starts := map[int64]bool{}
	for i := 0; i < 12; i++ {
		e := &datatree.Entry{Key: r.Bytes(8), Value: magicBytes([][2]int{{0, r.Intn(40)}, {1, r.Intn(2)}, {0, 3}}, r.Intn(100)), NextKey: r.Bytes(8), Height: int64(i), SerialNum: int64(i)}
		p := ef.Append([2][]byte{datatree.EntryToBytes(*e, nil), nil})
		poss, ents, starts[p] = append(poss, p), append(ents, e), true
	}
	ef.Flush()
	for i := 0; i < 30; i++ {
		p := int64(r.Intn(int(ef.Size())+200)) / 8 * 8
		if r.Chance(20) {
			p++
		}
		if starts[p] {
			continue
		}
		x.refuse("reading an entry where none begins", func() { ef.ReadEntry(p) })
		x.refuse("reading entry bytes for a proof where none begins", func() { ef.ReadEntryBytesForProof(p) })
		x.refuse("scanning from where no entry begins", func() { ef.ReadEntryAndSNList(p) })
	}
	for i, p := range poss {
		sameEntry("the entry after refused reads", ef.ReadEntry(p), ents[i])
	}
	ef.Close()

	// stored twigs
	td := mkdir(env.TempDir("twigs"))
	tf, err := datatree.NewTwigMtFile(4096, 4096*(1+r.Intn(20)), td)
	if err != nil {
		failf("%v", err)
	}
	for i := 0; i < 2; i++ {
		t := randomTwig(c.Seed + i)
		nodes := append([][32]byte{}, t[1:]...)
		x.refuse("a twig at a negative position", func() { tf.AppendTwig(nodes, -1-r.Int63n(1<<40)) })
		x.refuse("a twig with nodes missing", func() { tf.AppendTwig(nodes[:r.Intn(len(nodes))], 8) })
		x.refuse("a twig with too many nodes", func() { tf.AppendTwig(append(nodes[:len(nodes):len(nodes)], [32]byte{}), 8) })
		if tf.Size() != int64(i)*datatree.TwigMtSize {
			failf("a refused twig leaves the file at size %d", tf.Size())
		}
		tf.AppendTwig(nodes, int64(i)*800)
		tf.Flush()
		for _, id := range []int{0, -1, -r.Intn(1 << 20), 4096, 4096 + r.Intn(1<<20)} {
			x.refuse("a tree node that does not exist", func() { tf.GetHashNode(int64(i), id, map[int][]byte{}) })
		}
		x.refuse("a node of a twig that is not stored", func() { tf.GetHashNode(int64(i)+1+int64(r.Intn(5)), 1+r.Intn(255), map[int][]byte{}) })
		x.refuse("the position of a twig that is not stored", func() { tf.GetFirstEntryPos(int64(i) + 1 + int64(r.Intn(5))) })
		for j := 0; j < 20; j++ {
			id := 1 + r.Intn(4095)
			if g := tf.GetHashNode(int64(i), id, map[int][]byte{}); !bytes.Equal(g, t[id][:]) {
				failf("node %d of twig %d is %x after refused calls, want %x", id, i, g, t[id])
			}
		}
		if g := tf.GetFirstEntryPos(int64(i)); g != int64(i)*800 {
			failf("the first position of twig %d is %d after refused calls", i, g)
		}
	}
	tf.Close()

	x.refuse("edge nodes of a wrong length", func() { datatree.BytesToEdgeNodes(make([]byte, 40*r.Intn(4)+1+r.Intn(39))) })

	// the tree
	if c.N%4 != 0 {
		return
	}
	s := newTreeSess(&c.T, env)
	ref := refuseTree{s, x, r}
	ref.some()
	for i := 0; i < 4; i++ {
		for j := 0; j < 300+r.Intn(900); j++ {
			s.append(r, false)
			if sn, ok := s.pick(r, 0, len(s.m.ents)); ok && r.Chance(50) {
				s.deactivate(sn)
			}
		}
		s.endBlock() // compares the root
		ref.some()
	}
	s.t.Close()
}

type refuseTree struct {
	s *treeSess
	x *refuser
	r *Rand
}

func (t refuseTree) some() {
	s, x, r := t.s, t.x, t.r
	y := s.m.youngest()
	for i := 0; i < 3; i++ {
		start := s.m.lastPruned + 1
		if m := s.m.oldest - start; m > 0 {
			start += int64(r.Intn(int(m)))
		}
		end := start + int64(r.Intn(2))
		if r.Chance(10) {
			end = start - int64(r.Intn(3))
		}
		x.refuse("pruning too few twigs", func() { s.t.PruneTwigs(start, end) })
	}
	if first := (s.m.lastPruned + 1) << 11; first < int64(len(s.m.ents)) { // the first entry kept is still there
		e := s.m.ents[first]
		if b := s.t.ReadEntryBytesForProof(e.pos); !bytes.Equal(b, e.bz) {
			failf("after a refused pruning, entry %d reads as %s, want %s", first, hx(b), hx(e.bz))
		}
	}
	far := (y+1+int64(r.Intn(100)))<<11 + int64(r.Intn(2048))
	for _, sn := range []int64{-1, -1 - r.Int63n(1<<40), far} {
		if s.t.GetProof(sn) != nil {
			failf("there is a proof of serial number %d, the youngest twig is %d", sn, y)
		}
		x.refuseErr("a proof of a serial number never given", func() error { _, err := s.t.GetProofBytesAndCheck(sn, nil); return err })
		x.refuse("the state of a serial number never given", func() { s.t.GetActiveBit(sn) })
		x.refuse("deactivating a serial number never given", func() { s.t.DeactiviateEntry(sn) })
		if n := s.t.DeactivedSNListSize(); n != len(s.pend) {
			failf("a refused deactivation is listed: %d, want %d", n, len(s.pend))
		}
	}
	if sn, ok := s.pick(r, 0, len(s.m.ents)); ok {
		wrong := append([]byte{}, s.m.ents[sn].bz...)
		wrong[r.Intn(len(wrong))] ^= byte(1 + r.Intn(255))
		x.refuseErr("a proof of other entry bytes", func() error { _, err := s.t.GetProofBytesAndCheck(sn, wrong); return err })
	}
	s.checkSome(r, 6)
}

// misuseTree: a history with evictions and prunings.
func misuseTree(c *MisCase, env *Env, x *refuser) {
	r := newRand("mis4", c.Seed)
	s := newTreeSess(&c.T, env)
	ref := refuseTree{s, x, r}
	for _, op := range c.T.Ops {
		s.step(op, "")
		if s.atBlockEnd() && r.Chance(50) {
			ref.some()
		}
	}
	if !s.atBlockEnd() {
		s.endBlock()
	}
	ref.some()
	s.t.WaitForFlushing()
	s.checkAll(r, "at the end")
	s.t.Close()
}

func runG01(cs interface{}, env *Env) {
	c := cs.(*MisCase)
	x := &refuser{env: env}
	switch abs(c.Kind) % 5 {
	case 0:
		misuseMads(c, env, x)
	case 1:
		misuseStores(c, env, x)
	case 2:
		misuseIndex(c, env, x)
	case 3:
		misuseFiles(c, env, x)
	case 4:
		misuseTree(c, env, x)
	}
	env.LabelN("refused calls", x.n)
	if x.n >= 5 {
		env.Nontrivial()
	}
	_ = moeingads.StartReapThres
}

func genG01(r *Rand, idx int, thorough bool) interface{} {
	c := &MisCase{Kind: idx % 4, N: r.Range(3, 40), Seed: r.Intn(1 << 30)}
	if idx%12 == 3 {
		c.Kind = 4
	}
	switch c.Kind {
	case 0:
		c.M.Cfg = genCfg(r)
		g := histGen{reopen: 5, prune: 3, verify: 10, concurrent: 10}
		if idx%40 == 4 {
			c.M.Ops = genMedium(r, g)
		} else {
			c.M.Ops = genSmall(r, g, 10)
		}
	case 1:
		c.S = *genSCfg(r)
		c.S.Mock = r.Chance(30)
		c.S.Ops = nil
		for i := 0; i < r.Range(2, 8); i++ {
			c.S.Ops = append(c.S.Ops, SOp{W: genSWrites(r, r.Intn(10), 40), C: r.Chance(70), H: r.Intn(3), N: r.Intn(50)})
		}
	case 4:
		c.T = *genTree(r, 0, "", thorough)
	case 3:
		c.T = TreeCase{Buf: 4096 * r.Range(1, 8), Mul: r.Range(1, 16), Val: r.Range(0, 120), First: r.Intn(2500)}
	}
	return c
}

func init() {
	register(&Check{
		ID: "G01", Quick: 900, Thorough: 40000, PerProc: 40, CPULimit: 120,
		Rule:        "histories over the database, the stores, the index, the key-value store, the files and the Merkle tree with calls in between that their interfaces forbid; non-trivial: at least five calls were refused",
		Assumptions: []string{"only misuse the interfaces reject by an error or panic; a session begun twice and oversized lists of buffers are left out"},
		New:         func() interface{} { return &MisCase{} },
		Gen:         genG01,
		Run:         runG01,
	})
}
