package main

import (
	"fmt"
	"path/filepath"
)

func forceHist(c *MCase) { c.Cfg.Hist = true }

// withReopens inserts close/reopen steps, some of them repeated.
func withReopens(r *Rand, ops []MOp, pct int) (res []MOp) {
	if r.Chance(15) {
		res = append(res, MOp{T: reopenKind(r)})
	}
	for _, op := range ops {
		res = append(res, op)
		for r.Chance(pct) {
			res = append(res, MOp{T: reopenKind(r)})
		}
	}
	return
}

func init() {
	assume := []string{
		"keys are 8 bytes, strictly between the guards; the start guard lies in the first shard and the end guard in the last",
		"values are non-nil and an entry fits into the write buffer; block heights grow",
		"a key is prepared for what is done to it in the block",
	}
	register(&Check{
		ID: "C05", Quick: 150, Thorough: 12000, PerProc: 20,
		Rule:        "histories with close/reopen steps between blocks (also right after creation, repeated, and after pruning), all reads, the next-key chain, proofs and historical answers compared with the model after each reopen, and the roots of all blocks with an instance that is never closed; non-trivial: reopened at least once with live keys and a later block changed entries",
		Assumptions: assume,
		New:         newMCase,
		Gen: func(r *Rand, idx int, thorough bool) interface{} {
			c := &MCase{Cfg: genCfg(r)}
			switch {
			case idx%25 == 7:
				c.Ops = withReopens(r, genChurn(r, &c.Cfg, histGen{prune: 30}, 6, 29000), 40)
			case idx%8 == 3:
				c.Ops = withReopens(r, genMedium(r, histGen{prune: 5, concurrent: 10}), 35)
			default:
				c.Ops = withReopens(r, genSmall(r, histGen{prune: 5, concurrent: 10}, 8), 35)
			}
			return c
		},
		Run: func(cs interface{}, env *Env) {
			c := cs.(*MCase)
			o := mOpts{reads: true, chain: true, proofs: true, hist: true}
			s := newSess(c.Cfg, o, env, filepath.Join(env.Dir, "db"))
			s.run(c.Ops)
			s.reopen()
			o2 := mOpts{noReopen: true}
			ref := newSess(c.Cfg, o2, env, filepath.Join(env.Dir, "ref"))
			ref.run(c.Ops)
			sameRoots(env, s.roots, ref.roots, "with and without reopening")
			if s.reopens > 1 && s.blocksAfterReopen > 0 && len(s.m.sorted) > 0 {
				env.Nontrivial()
			}
			labelSess(s)
			s.close()
			ref.close()
		},
	})

	register(&Check{
		ID: "C07", Quick: 40, Thorough: 1500, PerProc: 5, CPULimit: 200,
		Rule:        "histories that rewrite part of a live set until twigs are retired while other keys stay untouched in old twigs, with small blocks of all write kinds between, compared with the model by reads, scan, next-key chain, proofs and historical queries; disk space after pruning at the current height is compared with the space of the last 17 twigs; non-trivial: compaction moved entries of untouched keys",
		Assumptions: append([]string{"retained space is judged for blocks of at most 1500 writes to a shard, since one twig per shard is retired per block"}, assume...),
		New:         newMCase,
		Gen: func(r *Rand, idx int, thorough bool) interface{} {
			c := &MCase{Cfg: genCfg(r)}
			total := r.Range(25000, 34000)
			if idx%5 == 1 || thorough && r.Chance(30) {
				total = r.Range(38000, 52000)
			}
			if idx%8 == 2 {
				total = r.Range(60000, 75000)
			}
			c.Ops = genChurn(r, &c.Cfg, histGen{reopen: 15, prune: 10, verify: 40}, 2+r.Intn(6), total)
			c.Cfg.Reap = []int{1, 100, 290}[r.Intn(3)]
			// blocks that write keys of old twigs while these are being retired
			n := 3 + r.Intn(8)
			for i := 0; i < n; i++ {
				c.Ops = append(c.Ops, MOp{T: 0, H: genHeightStep(r), W: genWrites(r, r.Range(20, 200), 700, false)})
			}
			c.Ops = append(c.Ops, MOp{T: 5})
			return c
		},
		Run: func(cs interface{}, env *Env) {
			c := cs.(*MCase)
			s := newSess(c.Cfg, mOpts{reads: true, chain: true, proofs: true, hist: true}, env, filepath.Join(env.Dir, "db"))
			maxBlock := 0
			s.opt.afterBlock = func(s *mSess) {
				var per [8]int
				for _, k := range s.touched {
					sh := shardOf(k)
					if per[sh]++; per[sh] > maxBlock {
						maxBlock = per[sh]
					}
				}
			}
			s.run(c.Ops)
			checkSpace(s, maxBlock)
			if s.moved > 0 {
				env.Nontrivial()
			}
			labelSess(s)
			s.close()
		},
	})

	register(&Check{
		ID: "C08", Quick: 32, Thorough: 2000, PerProc: 6, CPULimit: 200,
		Rule:        "histories with retired twigs and prune calls at many heights, some followed at once by close and reopen, compared with the model (reads, chain, proofs) and, root by root, with an instance that is never pruned or closed; non-trivial: a prune call dropped twigs (fewer bytes on disk than in the unpruned instance)",
		Assumptions: assume,
		New:         newMCase,
		Gen: func(r *Rand, idx int, thorough bool) interface{} {
			c := &MCase{Cfg: genCfg(r)}
			if idx%3 == 2 {
				c.Ops = withReopens(r, genSmall(r, histGen{prune: 40, verify: 10}, 10), 10)
			} else {
				c.Ops = genChurn(r, &c.Cfg, histGen{reopen: 40, prune: 75, verify: 10}, 8, r.Range(31000, 48000))
				var tail []MOp
				for i := 0; i < r.Intn(12); i++ {
					tail = append(tail, MOp{T: 0, W: genWrites(r, r.Range(1, 60), 900, false)})
					if r.Chance(30) {
						tail = append(tail, MOp{T: 2, N: r.Intn(4)})
					}
					if r.Chance(20) {
						tail = append(tail, MOp{T: reopenKind(r)})
					}
				}
				c.Ops = append(c.Ops, tail...)
			}
			return c
		},
		Run: func(cs interface{}, env *Env) {
			c := cs.(*MCase)
			s := newSess(c.Cfg, mOpts{reads: true, chain: true, proofs: true}, env, filepath.Join(env.Dir, "db"))
			s.run(c.Ops)
			s.reopen()
			ref := newSess(c.Cfg, mOpts{noReopen: true, noPrune: true}, env, filepath.Join(env.Dir, "ref"))
			ref.run(c.Ops)
			sameRoots(env, s.roots, ref.roots, "with and without pruning")
			var a, b int64
			for i := 0; i < 8; i++ {
				_, x := dirFiles(fmt.Sprintf("%s/entries.%d", s.dir, i))
				_, y := dirFiles(fmt.Sprintf("%s/entries.%d", ref.dir, i))
				a, b = a+x, b+y
			}
			if a < b {
				env.Nontrivial()
				env.Label("case:segments-dropped")
			}
			labelSess(s)
			s.close()
			ref.close()
		},
	})

	register(&Check{
		ID: "C09", Quick: 260, Thorough: 15000, PerProc: 20,
		Rule:        "histories with history enabled and no pruning; every key is queried at, just before and just after every height at which it changed and at random heights, after later overwrites, deletions, re-insertions, compaction and reopening; non-trivial: queries answered with a version that was later replaced, and queries answered as absent for a key that existed at another height",
		Assumptions: append([]string{"the two guard keys are not queried (their creation is stored at height -1)"}, assume...),
		New:         newMCase,
		Gen: func(r *Rand, idx int, thorough bool) interface{} {
			c := &MCase{Cfg: genCfg(r)}
			g := histGen{reopen: 10, verify: 30, concurrent: 10}
			switch {
			case idx%25 == 7:
				c.Ops = genChurn(r, &c.Cfg, histGen{reopen: 20, verify: 40}, 5, 28000)
			case idx%10 == 3:
				c.Ops = genMedium(r, g)
			default:
				c.Ops = genSmall(r, g, 18)
			}
			forceHist(c)
			return c
		},
		Run: func(cs interface{}, env *Env) {
			c := cs.(*MCase)
			c.Cfg.Hist = true
			s := newSess(c.Cfg, mOpts{hist: true, full: true, noPrune: true}, env, filepath.Join(env.Dir, "db"))
			s.run(c.Ops)
			s.verify(true)
			if env.labels["query:past"] > 10 && env.labels["query:absent"] > 10 {
				env.Nontrivial()
			}
			labelSess(s)
			s.close()
		},
	})

	register(&Check{
		ID: "C10", Quick: 100, Thorough: 5000, PerProc: 8, CPULimit: 200,
		Rule:        "histories with history enabled, prune calls at many heights, retired twigs, later blocks and reopening; queries around each version and around the prune height, judged where the property fixes the answer; non-trivial: queries above a prune height and at or below it",
		Assumptions: append([]string{"heights whose current version was written before the prune height are not queried: their records may be gone", "at or below the prune height only queries of the session that pruned are judged: the prune height is not stored"}, assume...),
		New:         newMCase,
		Gen: func(r *Rand, idx int, thorough bool) interface{} {
			c := &MCase{Cfg: genCfg(r)}
			switch {
			case idx%4 == 1:
				c.Ops = genChurn(r, &c.Cfg, histGen{reopen: 25, prune: 70, verify: 20}, 6, r.Range(30000, 42000))
			case idx%14 == 6 || thorough && idx%4 == 2:
				c.Ops = genBigBlocks(r, &c.Cfg)
			default:
				c.Ops = genSmall(r, histGen{reopen: 6, prune: 30, verify: 20}, 18)
			}
			forceHist(c)
			return c
		},
		Run: func(cs interface{}, env *Env) {
			c := cs.(*MCase)
			c.Cfg.Hist = true
			s := newSess(c.Cfg, mOpts{hist: true, reads: true}, env, filepath.Join(env.Dir, "db"))
			s.run(c.Ops)
			s.verify(true)
			if env.labels["query:above-pruned-height"] > 3 && env.labels["query:pruned-height"] > 3 {
				env.Nontrivial()
			}
			labelSess(s)
			s.close()
		},
	})
}

// genBigBlocks makes blocks that fill several twigs of one shard at once, which are retired by the small blocks after
// them, and prunes at the height of a big block or next to it.
func genBigBlocks(r *Rand, cfg *MCfg) (ops []MOp) {
	cfg.Prof, cfg.Reap = 4, 1+r.Intn(300)
	cfg.Buf, cfg.Mul = []int{8, 16, 64}[r.Intn(3)], 1+r.Intn(2)
	n, size := 0, r.Range(4500, 8000)
	big := r.Range(18, 27)*2048/size + 1
	for i := 0; i < big; i++ {
		ops = append(ops, MOp{T: 4, N: size, S: r.Intn(1 << 20), H: genHeightStep(r)})
		n += size
		for j := r.Intn(3); j > 0; j-- {
			ops = append(ops, MOp{T: 0, W: genWrites(r, r.Range(1, 20), 100, false)})
		}
	}
	for i := n>>11 - 5 + r.Intn(12); i > 0; i-- {
		ops = append(ops, MOp{T: 0, W: genWrites(r, r.Range(1, 12), 9000, false)})
	}
	at := map[int]int{} // blocks after each big block, which is where to prune
	blocks := 0
	for i := len(ops) - 1; i >= 0; i-- {
		if ops[i].T == 4 {
			at[len(at)] = blocks
		}
		blocks++
	}
	for i := big - 1; i > 0; i-- { // oldest first
		if r.Chance(70) {
			ops = append(ops, MOp{T: 2, D: 1, N: at[i] + r.Range(-1, 1)*r.Intn(2)})
		}
		if r.Chance(20) {
			ops = append(ops, MOp{T: reopenKind(r)})
		}
	}
	return
}

// checkSpace prunes at the current height and compares what is left in every busy shard with the bytes ever appended there.
func checkSpace(s *mSess, maxBlock int) {
	if maxBlock > 1500 || s.m.blocks == 0 || s.cfg.Reap > 300 || len(s.m.sorted) < 300 {
		return
	}
	pruned := false
	for shard, sn := range s.maxSN {
		twigs := sn >> 11
		if twigs < 22 || int64(s.fullBlocks) < 2*twigs {
			continue // every block with enough live entries retires a twig of each shard
		}
		if !pruned {
			s.prune(s.m.height)
			pruned = true
		}
		seg := int64(s.cfg.Buf) * 1024 * int64(s.cfg.Mul)
		dir := fmt.Sprintf("%s/entries.%d", s.dir, shard)
		_, left := dirFiles(dir)
		total := maxFileID(dir)*seg + seg
		allowed := total*17/twigs*13/10 + 2*seg
		s.env.Label("shards-with-space-judged")
		if left > allowed {
			failf("after pruning at the current height %d of about %d appended bytes (%d twigs) are left in shard %d, more than %d: retired twigs stay unprunable", left, total, twigs, shard, allowed)
		}
	}
}
