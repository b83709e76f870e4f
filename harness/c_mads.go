package main

import "path/filepath"

// Generators and oracles for the properties of the whole database.

func genCfg(r *Rand) MCfg {
	c := MCfg{
		Buf:  []int{4, 4, 8, 16, 64}[r.Intn(5)],
		Mul:  []int{1, 2, 8, 64, 256}[r.Intn(5)],
		Reap: []int{1, 1, 50, 500, 1 << 30}[r.Intn(5)],
		Hist: r.Chance(40),
		Prof: r.Intn(8),
		Seed: r.Intn(1 << 30),
	}
	if r.Chance(30) {
		c.Guard = 1 + r.Intn(2)
	}
	if r.Chance(60) {
		c.Height = r.Intn(100)
	}
	if r.Chance(25) { // around the borders of the bytes and words of a height
		c.Height = 1<<[]uint{7, 8, 15, 16, 24, 31, 32, 40, 48, 60}[r.Intn(10)] - r.Intn(5)
	}
	return c
}

func genHeightStep(r *Rand) int {
	if r.Chance(75) {
		return 0
	}
	if r.Chance(90) {
		return r.Intn(20)
	}
	if r.Chance(20) {
		return 1 << 32
	}
	return r.Intn(1 << 20)
}

func genWrites(r *Rand, n, uni int, plain bool) (ws [][3]int) {
	for i := 0; i < n; i++ {
		a := aSet
		switch {
		case plain || r.Chance(60):
			if r.Chance(30) {
				a = aDel
			}
		default:
			a = r.Intn(numActions)
		}
		k := r.Intn(uni)
		ws = append(ws, [3]int{k, a, r.Intn(1 << 20)})
		if !plain && r.Chance(8) { // another write to the same key
			ws = append(ws, [3]int{k, r.Intn(numActions), r.Intn(1 << 20)})
		}
	}
	return
}

func reopenKind(r *Rand) int {
	if r.Chance(25) {
		return 7
	}
	return 1
}

type histGen struct {
	reopen, prune, verify int // percent after each block
	concurrent            int
}

// genSmall: many small blocks over a small universe.
func genSmall(r *Rand, g histGen, maxBlocks int) []MOp {
	var ops []MOp
	uni := []int{2, 4, 8, 20, 60, 200}[r.Intn(6)]
	n := 1 + r.Intn(maxBlocks)
	for i := 0; i < n; i++ {
		nw := r.Intn(12)
		if r.Chance(10) {
			nw = r.Intn(80)
		}
		op := MOp{T: 0, H: genHeightStep(r), W: genWrites(r, nw, uni, false)}
		if r.Chance(g.concurrent) {
			op.G = 2 + r.Intn(7)
		}
		if r.Chance(50) {
			op.S = 1 + r.Intn(1000)
		}
		ops = append(ops, op)
		if r.Chance(g.reopen) {
			ops = append(ops, MOp{T: reopenKind(r)})
		}
		if r.Chance(g.prune) {
			ops = append(ops, MOp{T: 2, N: r.Intn(6)})
		}
		if r.Chance(g.verify) {
			ops = append(ops, MOp{T: 5})
		}
	}
	return append(ops, MOp{T: 5})
}

// genMedium: one or two large fills with small blocks around them (twig and file borders).
func genMedium(r *Rand, g histGen) []MOp {
	n := r.Range(200, 3000)
	if r.Chance(30) {
		n = r.Range(1900, 2200) // around one twig when all go to one shard
	}
	return genMediumN(r, g, n)
}

func genMediumN(r *Rand, g histGen, n int) []MOp {
	var ops []MOp
	gor := 0
	if r.Chance(g.concurrent) {
		gor = 2 + r.Intn(7)
	}
	ops = append(ops, MOp{T: 4, N: n, S: r.Intn(1000), G: gor})
	for i := 0; i < 2+r.Intn(5); i++ {
		ops = append(ops, MOp{T: 0, H: genHeightStep(r), W: genWrites(r, r.Intn(40), n+20, false)})
		if r.Chance(30) {
			ops = append(ops, MOp{T: 3, N: 1 + r.Intn(3), M: r.Range(50, 1500), R: n, D: r.Intn(600), S: r.Intn(1000), G: gor})
		}
		if r.Chance(30) {
			ops = append(ops, MOp{T: 6, N: 1 + r.Intn(n), R: r.Intn(n), D: r.Intn(2), S: r.Intn(1000), G: gor})
		}
		if r.Chance(g.reopen) {
			ops = append(ops, MOp{T: reopenKind(r)})
		}
		if r.Chance(g.prune) {
			ops = append(ops, MOp{T: 2, N: r.Intn(4)})
		}
	}
	return append(ops, MOp{T: 5})
}

// genChurn: enough rewriting in one shard for compaction, retired twigs and pruning.
func genChurn(r *Rand, c *MCfg, g histGen, rounds, total int) []MOp {
	c.Prof = 4
	c.Reap = []int{1, 1, 100}[r.Intn(3)]
	c.Buf = []int{8, 16, 64}[r.Intn(3)]
	c.Mul = []int{1, 2, 4, 16}[r.Intn(4)]
	if c.Buf*c.Mul < 64 {
		c.Mul = 64 / c.Buf
	}
	rng := r.Range(300, 1200)
	switch x := r.Intn(100); {
	case x < 30:
		c.Prof, rng, total = 8, rng*3/2, total*7/4
	case x < 34: // all shards
		c.Prof, rng, total = 0, rng*3, total*5
	}
	var ops []MOp
	// a stable set that is rarely rewritten lives in old twigs and has to be moved
	ops = append(ops, MOp{T: 4, N: rng, S: r.Intn(1000)})
	for i := 0; i < rounds; i++ {
		hot := rng * r.Range(40, 90) / 100
		m := hot * r.Range(60, 130) / 100
		n := 1 + total/rounds/(hot*6/10)
		d := 0
		if r.Chance(60) {
			d = r.Intn(150)
		}
		ops = append(ops, MOp{T: 3, N: n, M: m, R: hot, D: d, S: r.Intn(1 << 20), H: r.Intn(2) * r.Intn(3)})
		for j := 0; j < r.Intn(4); j++ {
			ops = append(ops, MOp{T: 0, H: genHeightStep(r), W: genWrites(r, r.Intn(30), rng+5, false)})
		}
		if r.Chance(15) {
			ops = append(ops, MOp{T: 6, N: 1 + r.Intn(rng/2), R: r.Intn(rng), S: r.Intn(1000)})
		}
		if r.Chance(g.reopen) {
			ops = append(ops, MOp{T: reopenKind(r)})
		}
		if r.Chance(g.prune) {
			ops = append(ops, MOp{T: 2, N: r.Intn(30)})
			if r.Chance(g.reopen) {
				ops = append(ops, MOp{T: reopenKind(r)})
			}
		}
		if r.Chance(g.verify) {
			ops = append(ops, MOp{T: 5})
		}
	}
	return append(ops, MOp{T: 5})
}

func newMCase() interface{} { return &MCase{} }

func labelSess(s *mSess) {
	e := s.env
	e.LabelN("blocks", s.m.blocks)
	if s.moved > 0 {
		e.Label("case:entries-moved-by-compaction")
		e.LabelN("moved-entries", s.moved)
	}
	if s.reopens > 0 {
		e.Label("case:reopened")
	}
	if s.hadPrune {
		e.Label("case:pruned")
	}
	n, _ := dirFiles(s.dir + "/entries.0")
	for i := 1; i < 8; i++ {
		x, _ := dirFiles(s.dir + "/entries." + string(rune('0'+i)))
		if x > n {
			n = x
		}
	}
	if n > 1 {
		e.Label("case:several-entry-segments")
	}
	if s.m.blocks > 0 {
		e.Label("profile:" + []string{"uniform", "dense", "same-low-48", "boundary", "one-shard", "next-to-guards", "rabbit-like", "mixed", "two-shards"}[s.cfg.Prof])
	}
}

func init() {
	assume := []string{
		"keys are 8 bytes, strictly between the guards; the start guard lies in the first shard and the end guard in the last",
		"values are non-nil and an entry fits into the write buffer; block heights grow",
		"a key is prepared for what is done to it in the block",
	}
	register(&Check{
		ID: "C01", Quick: 700, Thorough: 40000, PerProc: 30,
		Rule:        "histories of blocks over 8 key profiles (set, delete, set-then-delete, delete-then-set, repeated and prepared-only writes), fills, compaction churn, reopen, prune; non-trivial: at least two blocks changed live entries and reads saw an absent and a present key",
		Assumptions: assume,
		New:         newMCase,
		Gen: func(r *Rand, idx int, thorough bool) interface{} {
			c := &MCase{Cfg: genCfg(r)}
			g := histGen{reopen: 5, prune: 3, verify: 20, concurrent: 25}
			switch {
			case idx%100 == 7:
				c.Ops = genChurn(r, &c.Cfg, histGen{reopen: 20, prune: 30, verify: 40}, 3, 27000)
			case idx%10 == 3:
				c.Ops = genMedium(r, g)
			default:
				c.Ops = genSmall(r, g, 14)
			}
			return c
		},
		Run: func(cs interface{}, env *Env) {
			c := cs.(*MCase)
			s := newSess(c.Cfg, mOpts{reads: true}, env, filepath.Join(env.Dir, "db"))
			s.run(c.Ops)
			if s.effective >= 2 && len(s.m.used) > len(s.m.sorted) && len(s.m.sorted) > 0 {
				env.Nontrivial()
			}
			labelSess(s)
			s.close()
		},
	})
}
