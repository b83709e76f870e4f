package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"os"
	"path/filepath"
	"sync"

	"github.com/smartbch/moeingads/datatree"
)

// Entry serialization, the segmented file, twig files, proof decoding.

// ---- D01 ----

// ESpec describes an entry. Strings are lists of {kind, size}.
type ESpec struct {
	K, V, N [][2]int
	H, L, S int
	SNs     int // number of deactivated serial numbers
	Seed    int
	Raw     bool // written as two pieces, like a moved entry
}

type ECase struct {
	Buf, Mul int
	Entries  []ESpec
	Order    int // reading order
	Reopen   bool
	At       filePos
}

func magicBytes(parts [][2]int, seed int) []byte {
	var b []byte
	for i, p := range parts {
		n := abs(p[1])
		switch abs(p[0]) % 9 {
		case 0, 1:
			b = append(b, magic8...)
		case 2: // beginning of the separator
			b = append(b, magic8[:n%9]...)
		case 3: // end of it
			b = append(b, magic8[8-n%9:]...)
		case 4:
			b = append(b, bytes.Repeat([]byte{255}, n%9)...)
		case 5:
			b = append(b, bytes.Repeat([]byte{0}, n%9)...)
		case 6: // all but one byte of it
			m := append([]byte{}, magic8...)
			m[n%8] ^= byte(1 << uint(n/8%8))
			b = append(b, m...)
		case 7:
			b = append(b, newRand("e", seed, i).Bytes(n%12)...)
		case 8: // long
			b = append(b, newRand("e", seed, i).Bytes(n%400000)...)
		}
	}
	return b
}

func specialInt(v int) int64 {
	v = abs(v)
	r := newRand("int", v)
	switch v % 6 {
	case 0:
		return int64(v / 6 % 4)
	case 1: // low bytes equal to the end of the separator
		n := uint(1 + v/6%6)
		var x uint64
		for i := uint(0); i < n; i++ {
			x |= uint64(magic8[8-n+i]) << (8 * i)
		}
		return int64(x | uint64(r.Intn(64))<<(8*n))
	case 2:
		return int64(r.Uint64() >> 1)
	case 3:
		return int64(r.Uint64() >> 1 >> uint(r.Intn(60)))
	case 4: // high bytes like the beginning of the separator, as far as a non-negative number can
		return int64(uint64(0x7ffefdfcfcfdfeff) >> uint(v/6%3*8))
	}
	return int64(r.Intn(100000))
}

func (s *ESpec) entry() (*datatree.Entry, []int64) {
	e := &datatree.Entry{
		Key: magicBytes(s.K, s.Seed), Value: magicBytes(s.V, s.Seed+1), NextKey: magicBytes(s.N, s.Seed+2),
		Height: specialInt(s.H), LastHeight: specialInt(s.L), SerialNum: specialInt(s.S),
	}
	if s.H%11 == 10 { // the heights of null and dummy entries
		e.Height, e.LastHeight = -1-int64(s.H/11%2), -1-int64(s.H/11%2)
	}
	if e.Key == nil {
		e.Key = []byte{}
	}
	var l []int64
	for i := 0; i < clampInt(s.SNs, 0, 255); i++ {
		l = append(l, specialInt(s.Seed*300+i))
	}
	return e, l
}

func sameEntry(what string, g *datatree.Entry, w *datatree.Entry) {
	if g == nil {
		failf("%s returns no entry", what)
	}
	if !bytes.Equal(g.Key, w.Key) || !bytes.Equal(g.Value, w.Value) || !bytes.Equal(g.NextKey, w.NextKey) ||
		g.Height != w.Height || g.LastHeight != w.LastHeight || g.SerialNum != w.SerialNum {
		failf("%s returns key %s value %s next %s heights %d %d serial %d, want key %s value %s next %s heights %d %d serial %d", what,
			hx(g.Key), hx(g.Value), hx(g.NextKey), g.Height, g.LastHeight, g.SerialNum,
			hx(w.Key), hx(w.Value), hx(w.NextKey), w.Height, w.LastHeight, w.SerialNum)
	}
}

func sameSNs(what string, g, w []int64) {
	if len(g) != len(w) {
		failf("%s returns %d deactivated serial numbers, want %d", what, len(g), len(w))
	}
	for i := range g {
		if g[i] != w[i] {
			failf("%s returns deactivated serial number %d at %d, want %d", what, g[i], i, w[i])
		}
	}
}

// filePos is where a segmented file begins: at zero or, as if everything earlier had been pruned, in the segment of that
// position, with bytes before it that were never written and are not read.
type filePos int

func (p filePos) place(dir string, bs int64) int64 {
	if p <= 0 {
		return 0
	}
	return placeSegment(dir, bs, int64(p))
}

func placeSegment(dir string, bs, pos int64) int64 {
	name := filepath.Join(dir, fmt.Sprintf("%d-%d", pos/bs, bs))
	if err := os.WriteFile(name, nil, 0700); err != nil {
		infraf("%v", err)
	}
	if err := os.Truncate(name, pos%bs); err != nil {
		infraf("%v", err)
	}
	return pos
}

func genFilePos(r *Rand, bs int) filePos {
	if r.Chance(70) {
		return 0
	}
	// around borders of words
	pos := 1<<uint([]int{31, 32, 32, 33, 40, 47}[r.Intn(6)]) - r.Intn(3*bs)
	if r.Chance(30) {
		pos += int(bigInt(r, 40))
	}
	return filePos(pos)
}

func mkdir(d string) string {
	if err := os.MkdirAll(d, 0700); err != nil {
		infraf("%v", err)
	}
	return d
}

func runD01(cs interface{}, env *Env) {
	c := cs.(*ECase)
	buf := clampInt(c.Buf, 64, 1<<21)
	dir := mkdir(env.TempDir("entries"))
	type rec struct {
		e    *datatree.Entry
		sns  []int64
		bz   []byte
		pos  int64
		next int64
	}
	var recs []rec
	maxLen := 0
	for _, s := range c.Entries {
		e, l := s.entry()
		n := 32 + len(e.Key) + len(e.Value) + len(e.NextKey) + 8*len(l)
		n += n // escaping adds four bytes per eight at most
		if n > maxLen {
			maxLen = n
		}
	}
	for buf < maxLen {
		buf *= 2
	}
	base := (c.At / 8 * 8).place(dir, int64(buf*clampInt(c.Mul, 1, 64)))
	ef, err := datatree.NewEntryFile(buf, buf*clampInt(c.Mul, 1, 64), dir)
	if err != nil {
		infraf("%v", err)
	}
	magics := 0
	for _, s := range c.Entries {
		e, l := s.entry()
		bz := datatree.EntryToBytes(*e, l)
		w, snCopy := *e, append([]int64{}, l...)
		w.Key, w.Value, w.NextKey = append([]byte{}, e.Key...), append([]byte{}, e.Value...), append([]byte{}, e.NextKey...)
		if bytes.Contains(bz, magic8) {
			failf("the stored bytes of an entry contain the separator: key %s value %s next %s heights %d %d", hx(e.Key), hx(e.Value), hx(e.NextKey), e.Height, e.LastHeight)
		}
		re, err := refDecodeEntry(bz)
		if err != nil {
			failf("the stored bytes do not follow the documented format: %v", err)
		}
		sameEntry("decoding the stored bytes", &datatree.Entry{Key: re.Key, Value: re.Value, NextKey: re.NextKey, Height: re.Height, LastHeight: re.LastHeight, SerialNum: re.SN}, &w)
		sameSNs("decoding the stored bytes", re.Deact, snCopy)
		if len(bz) != 8+12+len(e.Key)+len(e.Value)+len(e.NextKey)+24+8*len(l) {
			magics++
		}
		two := [2][]byte{append([]byte{}, bz...), nil}
		if s.Raw {
			two[0] = datatree.EntryToBytes(*e, nil)
			two[0][0] = byte(len(l))
			two[1] = datatree.SNListToBytes(l)
			if !bytes.Equal(append(append([]byte{}, two[0]...), two[1]...), bz) {
				failf("an entry written in two pieces differs from the same entry written at once")
			}
		}
		pos := ef.Append(two)
		recs = append(recs, rec{e: &w, sns: snCopy, bz: bz, pos: pos, next: ef.Size()})
	}
	ef.Flush()
	if c.Reopen {
		ef.Close()
		if ef, err = datatree.NewEntryFile(buf, buf*clampInt(c.Mul, 1, 64), dir); err != nil {
			failf("the entry file does not open again: %v", err)
		}
	}
	r := newRand("order", c.Order)
	for round := 0; round < 2; round++ {
		idx := r.Perm(len(recs))
		for _, i := range idx {
			x := recs[i]
			for _, reader := range r.Perm(4) {
				switch reader {
				case 0:
					sameEntry("ReadEntry", ef.ReadEntry(x.pos), x.e)
				case 1:
					e, sns, next := ef.ReadEntryAndSNList(x.pos)
					sameEntry("ReadEntryAndSNList", e, x.e)
					sameSNs("ReadEntryAndSNList", sns, x.sns)
					if next != x.next {
						failf("ReadEntryAndSNList at %d gives next position %d, want %d", x.pos, next, x.next)
					}
				case 2:
					bz, next := ef.ReadEntryRawBytes(x.pos)
					if next != x.next {
						failf("ReadEntryRawBytes at %d gives next position %d, want %d", x.pos, next, x.next)
					}
					if !bytes.Equal(bz, x.bz[:len(x.bz)-8*len(x.sns)]) {
						failf("ReadEntryRawBytes returns %s, want the stored bytes without the list: %s", hx(bz), hx(x.bz))
					}
					keep := append([]byte{}, bz...)
					if k := datatree.ExtractKeyFromRawBytes(bz); !bytes.Equal(k, x.e.Key) {
						failf("ExtractKeyFromRawBytes returns %s, want %s", hx(k), hx(x.e.Key))
					}
					if sn := datatree.ExtractSerialNum(bz); sn != x.e.SerialNum {
						failf("ExtractSerialNum returns %d, want %d", sn, x.e.SerialNum)
					}
					sameEntry("EntryFromRawBytes", datatree.EntryFromRawBytes(bz), x.e)
					if !bytes.Equal(keep, bz) {
						failf("extracting from raw bytes modifies them")
					}
					nsn := specialInt(c.Order*31 + i)
					datatree.UpdateSerialNum(bz, nsn)
					bz[0] = 0
					w := *x.e
					w.SerialNum = nsn
					if want := datatree.EntryToBytes(w, nil); !bytes.Equal(bz, want) {
						failf("raw bytes with an updated serial number are %s, want %s", hx(bz), hx(want))
					}
				case 3:
					if bz := ef.ReadEntryBytesForProof(x.pos); !bytes.Equal(bz, x.bz) {
						failf("ReadEntryBytesForProof returns %s, want %s", hx(bz), hx(x.bz))
					}
				}
			}
		}
	}
	// walking by next positions visits all of them
	for pos, i := base, 0; pos < ef.Size(); i++ {
		e, _, next := ef.ReadEntryAndSNList(pos)
		if i >= len(recs) || pos != recs[i].pos {
			failf("walking the file meets position %d as number %d", pos, i)
		}
		sameEntry("walking the file", e, recs[i].e)
		pos = next
	}
	ef.Close()
	if magics > 0 && len(recs) > 1 {
		env.Nontrivial()
	}
	if base > 0 {
		env.Label("at large positions")
	}
	env.LabelN("entries", len(recs))
	env.LabelN("entries with escaped separators", magics)
}

func genParts(r *Rand, big bool) (p [][2]int) {
	switch r.Intn(6) {
	case 0: // the usual eight bytes
		return [][2]int{{7, 8}}
	case 1:
		return [][2]int{{[]int{2, 3}[r.Intn(2)], r.Intn(9)}, {[]int{2, 3}[r.Intn(2)], r.Intn(9)}}
	}
	n := r.Intn(6)
	for i := 0; i < n; i++ {
		p = append(p, [2]int{r.Intn(8), r.Intn(64)})
	}
	if big && r.Chance(30) {
		p = append(p, [2]int{8, r.Intn([]int{3000, 70000, 400000}[r.Intn(3)])})
	}
	return
}

func genD01(r *Rand) *ECase {
	c := &ECase{Buf: []int{64, 128, 256, 1000, 4096, 1 << 16}[r.Intn(6)] / 8 * 8, Mul: []int{1, 1, 2, 3, 10, 64}[r.Intn(6)], Order: r.Intn(1000), Reopen: r.Chance(30)}
	big := r.Chance(15)
	for i := 0; i < 1+r.Intn(24); i++ {
		s := ESpec{K: genParts(r, false), V: genParts(r, big), N: genParts(r, false), H: r.Intn(1 << 12), L: r.Intn(1 << 12), S: r.Intn(1 << 12), Seed: r.Intn(1 << 12), Raw: r.Chance(40)}
		s.SNs = []int{0, 0, 0, 1, 2, 63, 64, 65, 254, 255, r.Intn(256)}[r.Intn(11)]
		if r.Chance(25) { // the next key ends like the separator begins, and the height goes on like it
			cut := 1 + r.Intn(6)
			s.N = append(s.N, [2]int{2, 8 - cut})
			s.H = 1 + 6*(cut-1)
			if s.H%11 == 10 {
				s.H += 36
			}
		}
		c.Entries = append(c.Entries, s)
	}
	c.At = genFilePos(r, 1<<20)
	c.At = c.At / 8 * 8
	return c
}

// ---- D02 ----

// FOp: T 0 append, 1 flush, 2 read some records, 3 truncate, 4 prune, 5 reopen, 6 parallel reads, 7 read all
type FOp struct {
	T int   `json:"t"`
	L []int `json:"l,omitempty"` // lengths of the pieces
	N int   `json:"n,omitempty"`
	S int   `json:"s,omitempty"`
}

type FCase struct {
	Buf, Mul int
	At       filePos
	Ops      []FOp
}

func runD02(cs interface{}, env *Env) {
	c := cs.(*FCase)
	buf := clampInt(c.Buf, 16, 1<<20)
	bs := buf * clampInt(c.Mul, 1, 1<<16)
	dir := mkdir(env.TempDir("hpf"))
	base := c.At.place(dir, int64(bs))
	open := func() *datatree.HPFile {
		f, err := datatree.NewHPFile(buf, bs, dir)
		if err != nil {
			failf("opening fails: %v", err)
		}
		f.InitPreReader()
		return f
	}
	f := open()
	type rec struct {
		pos     int64
		data    []byte
		flushed bool
	}
	var recs []rec
	size := base
	pruned := base / int64(bs) // first segment kept
	sizes := []int64{base}
	seq := 0
	trunc, crossed, pruneOps := 0, 0, 0
	flushAll := func() {
		f.Flush()
		for i := range recs {
			recs[i].flushed = true
		}
	}
	read := func(i int, withBuf bool) {
		x := recs[i]
		if len(x.data) == 0 {
			return
		}
		b := make([]byte, len(x.data))
		seg := x.pos / int64(bs)
		if seg < pruned {
			if err := f.ReadAt(b, x.pos, withBuf); err == nil {
				failf("a record at %d can be read although its segment was pruned", x.pos)
			}
			return
		}
		if !x.flushed {
			if withBuf {
				return
			}
			if err := f.ReadAt(b, x.pos, false); err == nil && !bytes.Equal(b, x.data) {
				failf("an unflushed record at %d reads as other bytes", x.pos)
			}
			return
		}
		if err := f.ReadAt(b, x.pos, withBuf); err != nil {
			failf("reading %d bytes at %d (buffered %v) fails: %v", len(b), x.pos, withBuf, err)
		}
		if !bytes.Equal(b, x.data) {
			failf("reading %d bytes at %d (buffered %v) returns %s, want %s", len(b), x.pos, withBuf, hx(b), hx(x.data))
		}
		// parts of a record that lie in one segment
		if len(b) > 8 {
			o := (seq*7 + i) % (len(b) - 4)
			if x.pos%int64(bs)+int64(o) < int64(bs) && x.pos%int64(bs)+int64(len(b)) <= int64(bs) {
				p := make([]byte, 4)
				if err := f.ReadAt(p, x.pos+int64(o), withBuf); err != nil || !bytes.Equal(p, x.data[o:o+4]) {
					failf("reading 4 bytes at %d (buffered %v) returns %x (%v), want %x", x.pos+int64(o), withBuf, p, err, x.data[o:o+4])
				}
			}
		}
	}
	check := func() {
		if f.Size() != size {
			failf("size is %d, want %d", f.Size(), size)
		}
	}
	files := func() {
		ents, _ := os.ReadDir(dir)
		have := map[string]bool{}
		for _, e := range ents {
			have[e.Name()] = true
		}
		first := pruned - 1000
		if first < 0 {
			first = 0
		}
		if want := int(size/int64(bs) - pruned + 1); len(have) != want {
			failf("%d segments exist, want %d", len(have), want)
		}
		for id := first; id <= size/int64(bs); id++ {
			n := fmt.Sprintf("%d-%d", id, bs)
			if (id >= pruned) != have[n] {
				failf("segment %d exists: %v, but segments below %d were pruned", id, have[n], pruned)
			}
		}
	}
	for _, op := range c.Ops {
		seq++
		r := newRand("f", op.S, seq)
		switch abs(op.T) % 8 {
		case 0:
			for rep := 0; rep <= clampInt(op.N, 0, 400); rep++ {
				var bl [][]byte
				var all []byte
				total := 0
				for _, l := range op.L {
					n := abs(l) % (buf + 1)
					if n > 12 && rep > 0 {
						n -= r.Intn(n / 2)
					}
					if total+n > buf || len(bl) >= 5 {
						continue
					}
					total += n
					p := r.Bytes(n)
					bl = append(bl, p)
					all = append(all, p...)
				}
				if total == 0 {
					break
				}
				pos, err := f.Append(bl)
				if err != nil {
					failf("append fails: %v", err)
				}
				if pos != size {
					failf("append returns position %d, want %d", pos, size)
				}
				for _, p := range bl { // the caller may reuse its slices
					for i := range p {
						p[i] ^= 0x5a
					}
				}
				if (size+int64(total))/int64(bs) != size/int64(bs) {
					crossed++
				}
				size += int64(total)
				recs = append(recs, rec{pos: pos, data: all})
				check()
			}
		case 1:
			if op.N%2 == 0 {
				flushAll()
			} else {
				f.StartFlushing()
				for i := range recs {
					recs[i].flushed = true
				}
				if op.S%3 == 0 {
					f.WaitForFlushing()
				}
				// what was appended before is there at once
				for j := 0; j < 4 && len(recs) > 0; j++ {
					read(len(recs)-1-(j+abs(op.S)%2*r.Intn(9))%len(recs), j%2 == op.S%2)
				}
			}
			sizes = append(sizes, size)
		case 2:
			for j := 0; j < 12 && len(recs) > 0; j++ {
				i := (abs(op.N) + j*(1+abs(op.S)%5)) % len(recs)
				if j%3 == 2 {
					i = r.Intn(len(recs))
				}
				read(i, (op.S+j/4)%2 == 0)
			}
		case 3:
			flushAll()
			s := size
			if len(recs) > 0 {
				s = recs[abs(op.N)%len(recs)].pos
			}
			if op.S%3 == 0 {
				s = sizes[abs(op.N)%len(sizes)]
			}
			if s > size || s/int64(bs) < pruned {
				continue
			}
			if err := f.Truncate(s); err != nil {
				failf("truncating %d to %d fails: %v", size, s, err)
			}
			size = s
			for len(recs) > 0 && recs[len(recs)-1].pos >= s {
				recs = recs[:len(recs)-1]
			}
			var keep []int64
			for _, x := range sizes {
				if x <= s {
					keep = append(keep, x)
				}
			}
			sizes = keep
			if len(sizes) == 0 {
				sizes = []int64{s}
			}
			trunc++
			check()
			files()
		case 4:
			flushAll()
			off := base
			if len(recs) > 0 {
				off = recs[abs(op.N)%len(recs)].pos
			}
			if op.S%4 == 0 {
				off = size
			}
			if err := f.PruneHead(off); err != nil {
				failf("pruning before %d fails: %v", off, err)
			}
			if id := off / int64(bs); id > pruned {
				pruned = id
				pruneOps++
			}
			check()
			files()
		case 5:
			flushAll()
			if err := f.Close(); err != nil {
				failf("closing fails: %v", err)
			}
			f = open()
			check()
		case 6:
			flushAll()
			if len(recs) == 0 {
				continue
			}
			g := 2 + abs(op.N)%5
			var mtx sync.Mutex
			var first interface{}
			par(g, func(t int) {
				defer func() {
					if e := recover(); e != nil {
						mtx.Lock()
						if first == nil {
							first = e
						}
						mtx.Unlock()
					}
				}()
				q := newRand("par", op.S, t)
				start := q.Intn(len(recs))
				for j := 0; j < 40; j++ {
					i := (start + j) % len(recs)
					if j%7 == 6 {
						i = q.Intn(len(recs))
					}
					read(i, (t+j/20)%2 == 0)
				}
			})
			if first != nil {
				panic(first)
			}
			env.Label("parallel reads")
		case 7:
			flushAll()
			for i := range recs {
				read(i, op.N%2 == 0)
			}
		}
		check()
	}
	flushAll()
	f.Close()
	f = open()
	check()
	files()
	for i := range recs {
		read(i, i%2 == 0)
	}
	f.Close()
	if crossed > 0 && len(recs) > 2 {
		env.Nontrivial()
	}
	if trunc > 0 {
		env.Label("truncated")
	}
	if pruneOps > 0 {
		env.Label("pruned")
	}
	if base > 0 {
		env.Label("at large positions")
	}
	if bs > 1<<31 {
		env.Label("segments over 2 GB")
	}
	if size-pruned*int64(bs) > 300000 {
		env.Label("larger than the read-ahead buffer")
	}
}

func genD02(r *Rand) *FCase {
	c := &FCase{Buf: []int{16, 64, 100, 1000, 4096, 1 << 16, 1 << 19}[r.Intn(7)], Mul: []int{1, 1, 2, 3, 7, 30, 200}[r.Intn(7)]}
	if c.Buf*c.Mul > 8<<20 {
		c.Mul = 8
	}
	c.At = genFilePos(r, c.Buf*c.Mul)
	if r.Chance(8) { // huge segments, nearly full or filled somewhere over the borders of words
		c.Buf = []int{1 << 12, 1 << 16, 1 << 19}[r.Intn(3)]
		c.Mul = clampInt([]int{1 << 30, 1 << 31, 3 << 30, 5 << 30}[r.Intn(4)]/c.Buf, 1, 1<<16)
		bs := c.Buf * c.Mul
		off := []int{bs, 1 << 31, 1 << 32}[r.Intn(3)] - r.Intn(4*c.Buf)
		if off >= bs || off < 0 {
			off = bs - 1 - r.Intn(c.Buf)
		}
		c.At = filePos(r.Intn(3)*bs + off)
	}
	for i := 0; i < 4+r.Intn(40); i++ {
		op := FOp{N: r.Intn(1000), S: r.Intn(1000)}
		x := r.Intn(100)
		switch {
		case x < 42 || i == 0:
			op.T = 0
			for j := 0; j < 1+r.Intn(4); j++ {
				op.L = append(op.L, []int{r.Intn(9), r.Intn(c.Buf/4 + 1), r.Intn(c.Buf + 1), 8}[r.Intn(4)])
			}
			op.N = []int{0, 0, 3, 20, 100}[r.Intn(5)]
			if c.Buf > 60000 && op.N > 20 {
				op.N = 20
			}
		case x < 52:
			op.T = 1
		case x < 72:
			op.T = 2
		case x < 80:
			op.T = 3
		case x < 86:
			op.T = 4
		case x < 91:
			op.T = 5
		case x < 96:
			op.T = 6
		default:
			op.T = 7
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

// ---- D03 ----

type TCase struct {
	Buf, Mul int
	Twigs    []int // seed of each twig
	Base     int   // number of the first twig, the earlier ones being pruned
	Ops      []FOp // T 0 check a sample, 1 prune, 2 reopen, 3 append another twig
}

// refTree returns the nodes 1..4095 over 2048 leaves.
func refTree(leaves [2048][32]byte) (t [4096][32]byte) {
	copy(t[2048:], leaves[:])
	level := byte(0)
	for base := 1024; base >= 1; base /= 2 {
		for i := base; i < 2*base; i++ {
			t[i] = refHash2(level, t[2*i], t[2*i+1])
		}
		level++
	}
	return
}

func randomTwig(seed int) [4096][32]byte {
	r := newRand("twig", seed)
	var l [2048][32]byte
	for i := range l {
		if seed%3 == 1 && i > seed%2048 {
			copy(l[i][:], datatree.NullMT4Twig[2048][:])
			continue
		}
		r.Read(l[i][:])
	}
	return refTree(l)
}

func runD03(cs interface{}, env *Env) {
	c := cs.(*TCase)
	buf := clampInt(c.Buf, 32, 1<<20)
	mul := clampInt(c.Mul, 1, 1024)
	dir := mkdir(env.TempDir("twigmt"))
	base := clampInt(c.Base, 0, 1<<32)
	if base > 0 {
		placeSegment(dir, int64(buf*mul), int64(base)*datatree.TwigMtSize)
		env.Label("at large positions")
	}
	open := func() datatree.TwigMtFile {
		f, err := datatree.NewTwigMtFile(buf, buf*mul, dir)
		if err != nil {
			failf("opening fails: %v", err)
		}
		return f
	}
	f := open()
	var twigs [][4096][32]byte
	var first []int64
	add := func(seed int) {
		t := randomTwig(seed)
		pos := specialInt(seed)
		nodes := append([][32]byte{}, t[1:]...)
		f.AppendTwig(nodes, pos)
		twigs = append(twigs, t)
		first = append(first, pos)
		if f.Size() != int64(base+len(twigs))*datatree.TwigMtSize {
			failf("the size after %d twigs is %d", len(twigs), f.Size())
		}
	}
	prunedTo := 0
	one := func(t, id int, cache map[int][]byte) {
		g := f.GetHashNode(int64(base+t), id, cache)
		if !bytes.Equal(g, twigs[t][id][:]) {
			failf("node %d of twig %d is %x, want %x", id, t, g, twigs[t][id])
		}
		for k, v := range cache {
			if !bytes.Equal(v, twigs[t][k][:]) {
				failf("reading node %d of twig %d caches %x for node %d, want %x", id, t, v, k, twigs[t][k])
			}
		}
	}
	pos := func(t int) {
		if g := f.GetFirstEntryPos(int64(base + t)); g != first[t] {
			failf("the first entry position of twig %d is %d, want %d", t, g, first[t])
		}
	}
	sample := func(r *Rand, n int) {
		for j := 0; j < n; j++ {
			t := r.Range(prunedTo, len(twigs)-1)
			id := 1 + r.Intn(4095)
			switch r.Intn(4) {
			case 0:
				id = 256 + r.Intn(2048-256)
			case 1: // at powers of two
				id = clampInt(1<<uint(r.Intn(13))+r.Intn(3)-1, 1, 4095)
			}
			cache := map[int][]byte{}
			one(t, id, cache)
			if r.Chance(30) { // neighbours with the same cache
				one(t, clampInt(id^1, 1, 4095), map[int][]byte{})
				pos(t)
			}
		}
	}
	for _, s := range c.Twigs {
		add(s)
	}
	if len(twigs) == 0 {
		add(1)
	}
	f.Flush()
	for i, op := range c.Ops {
		r := newRand("d03", op.S, i)
		switch abs(op.T) % 4 {
		case 0:
			sample(r, 200)
		case 1:
			if len(twigs) == 0 {
				continue
			}
			p := r.Range(prunedTo, len(twigs)-1)
			f.PruneHead(int64(base+p) * datatree.TwigMtSize)
			prunedTo = p
			env.Label("pruned")
		case 2:
			f.Close()
			f = open()
			if f.Size() != int64(base+len(twigs))*datatree.TwigMtSize {
				failf("the size after reopening with %d twigs is %d", len(twigs), f.Size())
			}
		case 3:
			if len(twigs) < 12 {
				add(abs(op.S))
				f.Flush()
			}
		}
	}
	// every node of one twig, every position
	last := len(twigs) - 1
	full := prunedTo
	if len(c.Ops)%2 == 1 {
		full = last
	}
	for id := 1; id < 4096; id++ {
		one(full, id, map[int][]byte{})
	}
	for t := prunedTo; t <= last; t++ {
		pos(t)
	}
	f.Close()
	// the stored checksum protects the position: damage it
	if len(c.Twigs) > 0 {
		t := prunedTo + abs(c.Twigs[0])%(last-prunedTo+1)
		off := int64(base+t)*datatree.TwigMtSize + int64(abs(c.Twigs[0])/7%12)
		bs := int64(buf * mul)
		start := int64(base+t) * datatree.TwigMtSize
		name := filepath.Join(dir, fmt.Sprintf("%d-%d", start/bs, bs)) // a record stays in the segment where it starts
		b, err := os.ReadFile(name)
		if err != nil {
			infraf("%v", err)
		}
		b[start%bs+(off-start)] ^= byte(1 << uint(abs(c.Twigs[0])%8))
		if err := os.WriteFile(name, b, 0700); err != nil {
			infraf("%v", err)
		}
		f = open()
		if !panics(func() { f.GetFirstEntryPos(int64(base + t)) }) {
			failf("a damaged first entry position of twig %d is accepted", t)
		}
		f.Close()
	}
	if len(twigs) > 1 && int64(len(twigs))*datatree.TwigMtSize > int64(buf*mul) {
		env.Nontrivial()
	}
	env.LabelN("twigs", len(twigs))
}

func panics(f func()) (res bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(violation); ok {
				panic(e)
			}
			res = true
		}
	}()
	f()
	return false
}

func genD03(r *Rand) *TCase {
	c := &TCase{Buf: []int{32, 40, 100, 1000, 4096, 1 << 15, 1 << 20}[r.Intn(7)]}
	seg := []int{3000, 20000, 73708, 100000, 300000}[r.Intn(5)]
	c.Mul = clampInt(seg/c.Buf, 1, 1024)
	if r.Chance(25) {
		c.Base = int(bigInt(r, 32))
		if r.Chance(50) { // the file's size passes 2^31 or 2^32
			c.Base = (1<<uint(31+r.Intn(2)))/datatree.TwigMtSize - r.Intn(3)
		}
	}
	for i := 0; i < 1+r.Intn(6); i++ {
		c.Twigs = append(c.Twigs, r.Intn(1<<16))
	}
	for i := 0; i < r.Intn(10); i++ {
		c.Ops = append(c.Ops, FOp{T: []int{0, 0, 1, 2, 3}[r.Intn(5)], S: r.Intn(1 << 16)})
	}
	return c
}

// ---- D07 ----

type PCase struct {
	Seed   int
	Kind   int
	Upper  int
	Edits  [][3]int
	Length int
}

func runD07(cs interface{}, env *Env) {
	c := cs.(*PCase)
	r := newRand("proof", c.Seed)
	upper := clampInt(c.Upper, 1, 50)
	sn := int64(r.Uint64())
	if r.Chance(70) {
		sn = int64(r.Uint64() >> uint(1+r.Intn(50)))
	}
	// a valid proof made of random parts
	h32 := func() (h [32]byte) { r.Read(h[:]); return }
	var bz []byte
	var snb [8]byte
	binary.LittleEndian.PutUint64(snb[:], uint64(sn))
	bz = append(bz, snb[:]...)
	step := func(level int, self [32]byte, bit int64) [32]byte {
		p := h32()
		bz = append(bz, p[:]...)
		if bit&1 == 1 {
			return refHash2(byte(level), p, self)
		}
		return refHash2(byte(level), self, p)
	}
	cur := h32()
	bz = append(bz, cur[:]...)
	for i := 0; i < 11; i++ {
		cur = step(i, cur, sn>>uint(i))
	}
	right := h32()
	bz = append(bz, right[:]...)
	for i := 0; i < 3; i++ {
		right = step(8+i, right, sn>>uint(8+i))
	}
	cur = refHash2(11, cur, right)
	for i := 0; i < upper; i++ {
		cur = step(12+i, cur, sn>>uint(11+i))
	}
	bz = append(bz, cur[:]...)
	valid := append([]byte{}, bz...)
	switch abs(c.Kind) % 4 {
	case 1: // changed bytes
		for _, e := range c.Edits {
			bz[abs(e[0])%len(bz)] ^= byte(e[1])
		}
	case 2: // another length
		n := abs(c.Length)
		if n < len(bz) {
			bz = bz[:n]
		} else {
			bz = append(bz, r.Bytes(n-len(bz))...)
		}
	case 3: // anything
		bz = r.Bytes(abs(c.Length))
	}
	in := append([]byte{}, bz...)
	pp, err := datatree.BytesToProofPath(bz)
	if !bytes.Equal(in, bz) {
		failf("decoding modifies its input")
	}
	wellFormed := len(bz) >= 8+18*32 && (len(bz)-8)%32 == 0
	if err == nil && !wellFormed {
		failf("%d bytes are accepted as a proof", len(bz))
	}
	if err != nil {
		if wellFormed {
			failf("a proof of legal length %d is rejected: %v", len(bz), err)
		}
		env.Label("rejected by its length")
		if abs(c.Kind)%4 != 3 {
			env.Nontrivial()
		}
		return
	}
	if pp == nil {
		failf("decoding returns neither a proof nor an error")
	}
	env.Nontrivial()
	if !bytes.Equal(pp.ToBytes(), in) {
		failf("encoding the decoded proof gives other bytes")
	}
	if pp.SerialNum != int64(binary.LittleEndian.Uint64(in)) {
		failf("the decoded serial number is %d", pp.SerialNum)
	}
	_, _, _, refErr := refVerifyProofRaw(in)
	// as decoded, the intermediate hashes are missing: accepted only if they agree
	if err := pp.Check(false); err == nil {
		failf("a proof without intermediate hashes is accepted as it stands")
	}
	if !bytes.Equal(pp.ToBytes(), in) {
		failf("checking a proof changes its encoding")
	}
	err = pp.Check(true)
	if (err == nil) != (refErr == nil) {
		failf("checking the proof says %v, the reference says %v", err, refErr)
	}
	if !bytes.Equal(pp.ToBytes(), in) {
		failf("completing a proof changes its encoding")
	}
	if bytes.Equal(in, valid) && err != nil {
		failf("a valid proof is rejected: %v", err)
	}
	if err != nil {
		env.Label("well-formed but wrong")
		if e2 := pp.Check(false); e2 == nil {
			failf("a proof with a wrong root is accepted once its intermediate hashes are filled in")
		}
		if b, e2 := datatree.CheckProof(pp); e2 == nil {
			failf("CheckProof accepts a wrong proof (%d bytes)", len(b))
		}
		return
	}
	env.Label("valid")
	if err := pp.Check(false); err != nil {
		failf("the completed proof is rejected: %v", err)
	}
	if b, err := datatree.CheckProof(pp); err != nil || !bytes.Equal(b, in) {
		failf("CheckProof of a completed valid proof returns %v and %d bytes", err, len(b))
	}
	// each hash of the completed path counts
	for _, e := range c.Edits {
		q := *pp
		q.UpperPath = append([]datatree.ProofNode{}, pp.UpperPath...)
		var n *datatree.ProofNode
		i := abs(e[0]) % (11 + 3 + len(q.UpperPath) + 1)
		x := byte(1 << uint(abs(e[1])%8))
		at := abs(e[1]) / 8 % 32
		switch {
		case i < 11:
			n = &q.LeftOfTwig[i]
		case i < 14:
			n = &q.RightOfTwig[i-11]
		case i < 14+len(q.UpperPath):
			n = &q.UpperPath[i-14]
		}
		what := "the root"
		if n == nil {
			q.Root[at] ^= x
		} else {
			switch abs(e[2]) % 3 {
			case 0:
				n.SelfHash[at] ^= x
				what = "a node's own hash"
			case 1:
				n.PeerHash[at] ^= x
				what = "a peer hash"
			case 2:
				if n.SelfHash == n.PeerHash {
					continue
				}
				n.PeerAtLeft = !n.PeerAtLeft
				what = "a side"
			}
		}
		if err := q.Check(false); err == nil {
			failf("a path with %s changed (node %d) is accepted", what, i)
		}
		if _, err := datatree.CheckProof(&q); err == nil {
			failf("CheckProof accepts a path with %s changed (node %d)", what, i)
		}
		env.Label("changed node rejected")
	}
}

func genD07(r *Rand) *PCase {
	c := &PCase{Seed: r.Intn(1 << 30), Kind: r.Intn(4), Upper: 1 + r.Intn([]int{2, 8, 40}[r.Intn(3)])}
	n := 8 + 32*(17+c.Upper)
	for i := 0; i < 1+r.Intn(8); i++ {
		c.Edits = append(c.Edits, [3]int{r.Intn(n), 1 + r.Intn(255), r.Intn(3)})
	}
	switch r.Intn(4) {
	case 0:
		c.Length = r.Intn(8 + 32*20)
	case 1:
		c.Length = 8 + 32*r.Intn(60)
	case 2:
		c.Length = clampInt(8+32*r.Intn(60)+r.Intn(5)-2, 0, 1<<20)
	case 3:
		c.Length = r.Intn(20)
	}
	return c
}

func init() {
	register(&Check{
		ID: "D01", Quick: 12000, Thorough: 150000, PerProc: 100,
		Rule:        "lists of entries whose strings are composed of the separator, parts and near copies of it, zeros and random bytes (up to 400 kB), with heights and serial numbers continuing the separator, 0 to 255 deactivated numbers, written in one or two pieces, read by every reader in random order; non-trivial: at least two entries and one escaped separator",
		Assumptions: []string{"serial numbers are non-negative and heights are non-negative or those of null and dummy entries; entries are shorter than 2^24 bytes and than the write buffer"},
		New:         func() interface{} { return &ECase{} },
		Gen:         func(r *Rand, idx int, thorough bool) interface{} { return genD01(r) },
		Run:         runD01,
	})
	register(&Check{
		ID: "D02", Quick: 8000, Thorough: 60000, PerProc: 60,
		Rule:        "sequences of append (pieces up to the buffer size), flush, buffered and unbuffered reads, parallel reads, truncation to earlier sizes, pruning and reopening for many buffer and segment sizes, compared with the appended bytes and the list of segment files; non-trivial: at least three records and one segment crossing",
		Assumptions: []string{"a record is not longer than the write buffer; truncation does not go below the pruned head"},
		New:         func() interface{} { return &FCase{} },
		Gen:         func(r *Rand, idx int, thorough bool) interface{} { return genD02(r) },
		Run:         runD02,
	})
	register(&Check{
		ID: "D03", Quick: 5000, Thorough: 25000,
		Rule:        "1 to 12 twigs of random leaves in segments of many sizes, with pruning, reopening and further twigs; sampled nodes of all twigs and every node of one twig are compared with an independently computed tree, and a damaged position must be rejected; non-trivial: several twigs over several segments",
		Assumptions: []string{"nodes are read after a flush"},
		New:         func() interface{} { return &TCase{} },
		Gen:         func(r *Rand, idx int, thorough bool) interface{} { return genD03(r) },
		Run:         runD03,
	})
	register(&Check{
		ID: "D07", Quick: 100000, Thorough: 1000000, PerProc: 1000,
		Rule:        "valid proofs built by a reference, byte changes, other lengths and arbitrary bytes; decoding, encoding and both kinds of checking are compared with an independent verifier, and single changed nodes of a completed path must be rejected; non-trivial: decoded proofs, or a rejected variation of a proof",
		Assumptions: []string{"SHA-256 is collision free"},
		New:         func() interface{} { return &PCase{} },
		Gen:         func(r *Rand, idx int, thorough bool) interface{} { return genD07(r) },
		Run:         runD07,
	})
}
