package main

import (
	"bytes"
	"encoding/binary"
	"path/filepath"

	"github.com/smartbch/moeingads/datatree"
)

// C03 and C08 compare whole histories executed by two instances.
type twinCase struct {
	A    MCfg
	B    MCfg // same Guard, Prof, Seed, Height, Reap
	Ops  []MOp
	VarB int // variation of the second run: 1 shuffle, 2 goroutines, 4 extra preparations, 8 no reopen, 16 no prune
	Mut  int // which block gets one more effective write in a third run (-1: none)
}

func sameRoots(env *Env, a, b [][]byte, what string) {
	if len(a) != len(b) {
		infraf("runs have %d and %d blocks", len(a), len(b))
	}
	for i := range a {
		if !bytes.Equal(a[i], b[i]) {
			failf("root hashes of the two runs (%s) differ after block %d: %x and %x", what, i, a[i], b[i])
		}
	}
}

func init() {
	assume := []string{
		"keys are 8 bytes, strictly between the guards; the start guard lies in the first shard and the end guard in the last",
		"values are non-nil and an entry fits into the write buffer; block heights grow",
		"a key is prepared for what is done to it in the block",
	}
	register(&Check{
		ID: "C02", Quick: 500, Thorough: 30000, PerProc: 30,
		Rule:        "histories as for C01, the whole next-key chain walked after every block; non-trivial: an insertion or deletion between other live keys in a later block, with at least 3 live keys",
		Assumptions: assume,
		New:         newMCase,
		Gen: func(r *Rand, idx int, thorough bool) interface{} {
			c := &MCase{Cfg: genCfg(r)}
			g := histGen{reopen: 8, prune: 4, verify: 20, concurrent: 30}
			switch {
			case idx%60 == 7:
				c.Ops = genChurn(r, &c.Cfg, histGen{reopen: 20, prune: 20, verify: 40}, 3, 27000)
			case idx%12 == 3:
				c.Ops = genMedium(r, g)
			default:
				c.Ops = genSmall(r, g, 14)
			}
			return c
		},
		Run: func(cs interface{}, env *Env) {
			c := cs.(*MCase)
			s := newSess(c.Cfg, mOpts{chain: true, full: true}, env, filepath.Join(env.Dir, "db"))
			s.run(c.Ops)
			if s.effective >= 2 && len(s.m.sorted) >= 3 {
				env.Nontrivial()
			}
			labelSess(s)
			s.close()
		},
	})

	register(&Check{
		ID: "C03", Quick: 260, Thorough: 15000, PerProc: 25,
		Rule:        "each history is executed by two instances that differ in preparation order, issue order, goroutines, buffer and segment sizes, history flag, extra preparations, reopening and pruning, and the roots after every block are compared; a third run changes one write; non-trivial: at least three blocks changed live entries and the second run differed in order or goroutines",
		Assumptions: append([]string{"both instances use the same compaction threshold (it is a constant of the build)"}, assume...),
		New:         func() interface{} { return &twinCase{} },
		Gen: func(r *Rand, idx int, thorough bool) interface{} {
			c := &twinCase{A: genCfg(r), Mut: -1}
			g := histGen{reopen: 12, prune: 6, verify: 5, concurrent: 20}
			switch {
			case idx%65 == 7:
				c.Ops = genChurn(r, &c.A, histGen{reopen: 40, prune: 40, verify: 10}, 3, 27000)
			case idx%13 == 3:
				c.Ops = genMedium(r, g)
			default:
				c.Ops = genSmall(r, g, 12)
			}
			b := genCfg(r)
			c.B = c.A
			c.B.Buf, c.B.Mul, c.B.Hist = b.Buf, b.Mul, b.Hist
			if idx%65 == 7 {
				c.B.Mul = 256 / c.B.Buf * (1 + r.Intn(3))
			}
			if c.B.Buf < c.A.Buf {
				c.B.Buf = c.A.Buf // values are sized for the smaller buffer
			}
			c.VarB = r.Intn(32)
			if r.Chance(50) {
				c.Mut = r.Intn(12)
			}
			return c
		},
		Run: func(cs interface{}, env *Env) {
			c := cs.(*twinCase)
			a := newSess(c.A, mOpts{}, env, filepath.Join(env.Dir, "a"))
			var changed []int
			a.opt.afterBlock = func(s *mSess) { changed = append(changed, s.effective) }
			a.run(c.Ops)
			o := mOpts{}
			if c.VarB&1 != 0 {
				o.shuffle = 77
			}
			if c.VarB&2 != 0 {
				o.gor = 4
			}
			o.extraPrep = c.VarB&4 != 0
			o.noReopen = c.VarB&8 != 0
			o.noPrune = c.VarB&16 != 0
			bc := c.A
			bc.Mul, bc.Hist = c.B.Mul, c.B.Hist
			if c.B.Buf > bc.Buf {
				bc.Buf = c.B.Buf
			}
			b := &mSess{}
			b = newSess(bc, o, env, filepath.Join(env.Dir, "b"))
			b.uni.cfg.Buf = a.uni.cfg.Buf // same values
			b.run(c.Ops)
			sameRoots(env, a.roots, b.roots, "variation "+string(rune('a'+c.VarB%26)))
			// sensitivity: a block without effective writes keeps the root, any other block changes it
			prev, prevRoot := 0, []byte(nil)
			seen := map[string]int{}
			for i, n := range changed {
				if prevRoot != nil {
					if same := bytes.Equal(prevRoot, a.roots[i]); same != (n == prev) {
						// compaction may rewrite entries in a block without writes: only small histories are judged there
						if n != prev || !mayCompact(c.A, len(a.m.used)) {
							failf("block %d changed %d entries; root unchanged: %v", i, n-prev, same)
						}
					}
				}
				if j, ok := seen[string(a.roots[i])]; ok && n != changed[j] {
					failf("blocks %d and %d have the same root although entries were written between them", j, i)
				}
				seen[string(a.roots[i])] = i
				prev, prevRoot = n, a.roots[i]
			}
			if c.Mut >= 0 {
				// the same history with one more key set in one block has another root from there on
				blocks := 0
				var ops []MOp
				for _, op := range c.Ops {
					if op.T == 0 {
						if blocks == c.Mut {
							op.W = append(append([][3]int{}, op.W...), [3]int{500000, aSet, 1})
						}
						blocks++
					}
					if op.T == 3 || op.T == 4 {
						blocks += 100000
					}
					if op.T == 0 || op.T == 3 || op.T == 4 {
						ops = append(ops, op)
					}
				}
				if blocks > c.Mut && blocks < 100000 {
					m := newSess(c.A, mOpts{}, env, filepath.Join(env.Dir, "m"))
					m.run(ops)
					for i := range m.roots {
						if same := bytes.Equal(m.roots[i], a.roots[i]); same != (i < c.Mut) {
							failf("a run with one more key set in block %d has the same root after block %d: %v", c.Mut, i, same)
						}
					}
					m.close()
					env.Label("case:one-write-more")
				}
			}
			if a.effective >= 3 && c.VarB != 0 {
				env.Nontrivial()
			}
			for i, n := range []string{"shuffled", "goroutines", "extra-preparations", "no-reopen", "no-prune"} {
				if c.VarB>>uint(i)&1 == 1 {
					env.Label("variation:" + n)
				}
			}
			labelSess(a)
			a.close()
			b.close()
		},
	})

	register(&Check{
		ID: "C04", Quick: 260, Thorough: 15000, PerProc: 25,
		Rule:        "histories as for C01; proofs of all (or up to 8 per shard) live keys and both guards verified independently against GetRootHash, and altered proofs and entries fed to the library's and the independent verification; non-trivial: all eight shard roots were recombined from proofs, or at least 5 proofs of written keys",
		Assumptions: append([]string{"SHA-256 is collision free", "serial-number bits above the depth of the path are not bound by a proof and are not altered"}, assume...),
		New:         func() interface{} { return &proofCase{} },
		Gen: func(r *Rand, idx int, thorough bool) interface{} {
			c := &proofCase{MCase: MCase{Cfg: genCfg(r)}, Tamper: r.Intn(1 << 20)}
			g := histGen{reopen: 10, prune: 4, verify: 20, concurrent: 10}
			switch {
			case idx%40 == 7:
				c.Ops = genChurn(r, &c.Cfg, histGen{reopen: 20, prune: 40, verify: 60}, 3, 27000)
			case idx%8 == 3:
				c.Ops = genMedium(r, g)
			case idx%13 == 5: // finished twigs in two shards
				c.Cfg.Prof = 8
				c.Ops = genMediumN(r, g, r.Range(3500, 9000))
			default:
				c.Ops = genSmall(r, g, 10)
			}
			return c
		},
		Run: func(cs interface{}, env *Env) {
			c := cs.(*proofCase)
			s := newSess(c.Cfg, mOpts{proofs: true}, env, filepath.Join(env.Dir, "db"))
			s.run(c.Ops)
			tamper(s, c.Tamper)
			if env.labels["root-recombined"] > 0 || env.labels["proofs"] >= 7 {
				env.Nontrivial()
			}
			labelSess(s)
			s.close()
		},
	})
}

type proofCase struct {
	MCase
	Tamper int
}

func mayCompact(c MCfg, live int) bool { return c.Reap <= live+2 && live > 1000 }

// tamper alters single bytes of a proof and of the entry bytes; every alteration has to be noticed.
func tamper(s *mSess, seed int) {
	r := newRand("tamper", seed)
	ks := append([]string{s.m.start, s.m.end}, s.m.sorted...)
	for n := 0; n < 4; n++ {
		k := ks[r.Intn(len(ks))]
		entryBz, proof, err := s.db.GetProof([]byte(k))
		if err != nil {
			failf("GetProof(%x) fails: %v", k, err)
		}
		pp, err := datatree.BytesToProofPath(proof)
		if err != nil {
			failf("decoding the proof of %x fails: %v", k, err)
		}
		if err := pp.Check(true); err != nil {
			failf("the proof of %x is rejected by the library: %v", k, err)
		}
		if !bytes.Equal(pp.ToBytes(), proof) {
			failf("encoding the decoded proof of %x gives other bytes", k)
		}
		depth := 11 + (len(proof)-8)/32 - 17
		for t := 0; t < 40; t++ {
			bad := append([]byte{}, proof...)
			if t < 12 { // path bits of the serial number
				bit := r.Intn(depth)
				bad[bit/8] ^= 1 << uint(bit%8)
			} else if t < 36 {
				i := 8 + r.Intn(len(bad)-8)
				bad[i] ^= 1 << uint(r.Intn(8))
			} else {
				bad = bad[:len(bad)-32*(1+r.Intn(2))]
			}
			p2, err := datatree.BytesToProofPath(bad)
			if err == nil {
				err = p2.Check(true)
			}
			if err == nil {
				// both directions may be equivalent where a node equals its peer
				if bytes.Equal(bad[8:], proof[8:]) && symmetric(proof, bad) {
					continue
				}
				failf("an altered proof of %x (alteration %d) is accepted: %x instead of %x", k, t, bad, proof)
			}
		}
		e2 := append([]byte{}, entryBz...)
		e2[r.Intn(len(e2))] ^= 1 << uint(r.Intn(8))
		if _, _, _, err := refVerifyProof(e2, proof); err == nil {
			failf("altered entry bytes match the proof")
		}
		s.env.LabelN("altered-proofs", 40)
	}
}

// symmetric tells whether the two serial numbers differ only at levels where both siblings have the same hash.
func symmetric(proof, bad []byte) bool {
	sn := int64(binary.LittleEndian.Uint64(proof))
	sn2 := int64(binary.LittleEndian.Uint64(bad))
	_, _, _, err := refVerifyProofRaw(bad)
	return sn != sn2 && err == nil
}
