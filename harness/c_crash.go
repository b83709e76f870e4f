//go:build fsrec

package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"sort"
)

// C06: crash points.

type CrashPoint struct {
	At     int // where, in 1/10000 of the candidates of its class
	Class  int // 0 any operation, 1 after a sync, 2 around unlink, truncation, rename or file creation, 3 around a sync of the key-value store's log
	Loss   int
	Seed   int
	Second bool // crash again while or after the database is opened for repair
	At2    int
}

type CrashCase struct {
	Cfg    MCfg
	Ops    []MOp
	Points []CrashPoint
	Delay  int // percent of delayed disk operations
	DSeed  int
}

type mSnap struct {
	m     *mModel
	prune int64 // largest prune height requested before the next block
}

func (m *mModel) clone() *mModel {
	n := &mModel{start: m.start, end: m.end, cur: map[string]*mVersion{}, hist: map[string][]*mVersion{}, used: map[string]bool{}, blocks: m.blocks, height: m.height}
	for k, v := range m.cur {
		n.cur[k] = v
	}
	for k, v := range m.hist {
		n.hist[k] = v[:len(v):len(v)]
	}
	for k := range m.used {
		n.used[k] = true
	}
	n.sorted = append([]string{}, m.sorted...)
	return n
}

const markCreated = -10

func pickPoint(ops []fsOp, from int, p CrashPoint) int {
	var cand []int
	for i := from; i < len(ops); i++ {
		o := ops[i]
		switch p.Class % 4 {
		case 0:
			if o.kind != kMark && o.kind != kClose {
				cand = append(cand, i+1)
			}
		case 1:
			if o.kind == kSync {
				cand = append(cand, i, i+1)
			}
		case 2:
			if o.kind == kUnlink || o.kind == kTrunc || o.kind == kTruncPath || o.kind == kRename || (o.kind == kOpen && int(o.off)&os.O_CREATE != 0) {
				cand = append(cand, i, i+1)
			}
		case 3:
			if o.kind == kMark {
				cand = append(cand, i, i+1)
				if i > from {
					cand = append(cand, i-1)
				}
			}
		}
	}
	if len(cand) == 0 {
		return -1
	}
	return cand[abs(p.At)%10000*len(cand)/10000]
}

func runCrash(cs interface{}, env *Env) {
	c := cs.(*CrashCase)
	dir := filepath.Join(env.Dir, "db")
	fsStart(dir, int64(c.DSeed), clampInt(c.Delay, 0, 60))
	s := newSess(c.Cfg, mOpts{}, env, dir)
	fsMark(markCreated)
	snaps := []mSnap{{m: s.m.clone(), prune: -1}}
	prunes := map[int]int64{} // position in snaps -> prune height
	s.opt.beforeBlock = func(s *mSess, op MOp, ws []mWrite) {
		s.recs = append(s.recs, blockRec{op, ws})
		fsMark(int64(2 * len(s.recs))) // block number len(recs) begins
	}
	s.opt.afterBlock = func(s *mSess) {
		fsMark(int64(2*len(s.recs) + 1)) // and is finished
		snaps = append(snaps, mSnap{m: s.m.clone(), prune: s.prunedEv})
	}
	s.opt.beforePrune = func(s *mSess, h int64) {
		if h > prunes[len(snaps)-1] {
			prunes[len(snaps)-1] = h
		}
	}
	s.run(c.Ops)
	ops := fsTake()
	s.close()
	created := 0
	for i, o := range ops {
		if o.kind == kMark && o.off == markCreated {
			created = i + 1
		}
	}
	type pt struct {
		p  CrashPoint
		at int
	}
	var pts []pt
	for _, p := range c.Points {
		if at := pickPoint(ops, created, p); at >= created {
			pts = append(pts, pt{p, at})
		}
	}
	sort.SliceStable(pts, func(i, j int) bool { return pts[i].at < pts[j].at })
	disk := newDisk(dir)
	finished, begun := 0, 0
	for j, p := range pts {
		for disk.n < p.at {
			o := ops[disk.n]
			disk.apply(o)
			if o.kind == kMark && o.off > 0 {
				if o.off%2 == 0 {
					begun = int(o.off / 2)
				} else {
					finished = int(o.off / 2)
				}
			}
		}
		img := filepath.Join(env.Dir, fmt.Sprintf("img%d", j))
		lost := disk.write(img, abs(p.p.Loss)%4, newRand("loss", p.p.Seed))
		what := "end"
		if p.at > 0 {
			o := ops[p.at-1]
			what = fmt.Sprintf("%s %s", map[int]string{kOpen: "open", kClose: "close", kWrite: "write", kSync: "sync", kTrunc: "truncate", kUnlink: "unlink", kRename: "rename", kMkdir: "mkdir", kMark: "mark", kTruncPath: "truncate"}[o.kind], o.a)
		}
		env.Label("crash-after:" + map[int]string{kOpen: "open", kClose: "close", kWrite: "write", kSync: "sync", kTrunc: "truncate", kUnlink: "unlink", kRename: "rename", kMkdir: "mkdir", kMark: "mark", kTruncPath: "truncate"}[ops[p.at-1].kind])
		if lost > 0 {
			env.Label("crash:unsynced-bytes-lost")
		}
		if begun > finished {
			env.Label("crash:inside-a-block")
			env.Nontrivial()
		}
		desc := fmt.Sprintf("crash after file operation %d of %d (%s), %d blocks begun, %d finished, %d unsynced bytes lost", p.at, len(ops), what, begun, finished, lost)
		prune := int64(-1)
		for n, h := range prunes {
			if n <= finished && h > prune {
				prune = h
			}
		}
		if p.p.Second {
			// open for repair, run a little, and crash again anywhere in there
			fsStart(img, int64(c.DSeed)+1, clampInt(c.Delay, 0, 60))
			n := attach(c, env, img, desc, snaps, s, finished, begun, prune, 2, true)
			ops2 := fsTake()
			if at := pickPoint(ops2, 0, CrashPoint{At: p.p.At2, Class: p.p.Class}); at >= 0 {
				// the image as it was before the repair
				d2 := newDisk(img)
				img0 := filepath.Join(env.Dir, fmt.Sprintf("img%d.again", j))
				_ = disk.write(img0, abs(p.p.Loss)%4, newRand("loss", p.p.Seed))
				d3 := newDisk(img0)
				d3.load()
				for q, f := range d3.files {
					d2.files[img+q[len(img0):]] = f
				}
				for q := range d3.dirs {
					d2.dirs[img+q[len(img0):]] = true
				}
				fin, beg := n, n
				for d2.n < at {
					o := ops2[d2.n]
					d2.apply(o)
					if o.kind == kMark && o.off > 0 {
						if o.off%2 == 0 {
							beg = int(o.off / 2)
						} else {
							fin = int(o.off / 2)
						}
					}
				}
				_ = os.RemoveAll(img0)
				_ = os.RemoveAll(img)
				img2 := filepath.Join(env.Dir, fmt.Sprintf("img%d.second", j))
				d2.write(img2, abs(p.p.Loss+1)%4, newRand("loss2", p.p.Seed))
				env.Label("crash:second")
				attach(c, env, img2, fmt.Sprintf("%s; second crash after operation %d of %d from the repair on", desc, at, len(ops2)), snaps, s, fin, beg, prune, 3, false)
				_ = os.RemoveAll(img2)
			}
			continue
		}
		attach(c, env, img, desc, snaps, s, finished, begun, prune, 1000, false)
		_ = os.RemoveAll(img)
	}
	labelSess(s)
}

// attach opens the image, checks that it shows the state after one of the blocks lo..hi and runs later blocks.
func attach(c *CrashCase, env *Env, img, desc string, snaps []mSnap, orig *mSess, lo, hi int, prune int64, more int, marks bool) int {
	a := &mSess{cfg: orig.cfg, env: env, dir: img, sns: map[string]int64{}, pruned: -1, prunedEv: prune, lastWalk: -2, uni: orig.uni, rnd: newRand("attach", orig.cfg.Seed), pos: desc + ": reopening"}
	a.opt = mOpts{reads: true, chain: true, proofs: true, hist: true}
	for i := range a.maxSN {
		a.maxSN[i] = -1
	}
	a.m = orig.m
	a.open()
	h := a.db.GetCurrHeight()
	n := -1
	for i := lo; i <= hi && i < len(snaps); i++ {
		if snaps[i].m.height == h {
			n = i
		}
	}
	if n < 0 {
		failf("%s: the reopened database is at height %d; block %d (height %d) was finished and block %d begun", desc, h, lo, snaps[lo].m.height, hi)
	}
	a.m = snaps[n].m.clone()
	if n > 0 {
		if got := a.db.GetRootHash(); !bytes.Equal(got, orig.roots[n-1]) {
			failf("%s: the root hash of height %d is %x after reopening, was %x", desc, h, got, orig.roots[n-1])
		}
	}
	a.pos = desc + ": after reopening"
	a.verify(true)
	if n < hi {
		env.Label("crash:block-in-progress-absent")
	} else if hi > lo {
		env.Label("crash:block-in-progress-present")
	}
	if marks {
		a.opt.beforeBlock = func(s *mSess, op MOp, ws []mWrite) { fsMark(int64(2 * (n + len(s.roots) + 1))) }
		a.opt.afterBlock = func(s *mSess) { fsMark(int64(2*(n+len(s.roots)) + 1)) }
	}
	for i := n; i < len(orig.recs) && i < n+more; i++ {
		a.pos = fmt.Sprintf("%s: block %d again", desc, i+1)
		a.block(orig.recs[i].op, orig.recs[i].ws)
		if !bytes.Equal(a.roots[len(a.roots)-1], orig.roots[i]) {
			failf("%s: re-executing block %d gives root %x, it was %x", desc, i+1, a.roots[len(a.roots)-1], orig.roots[i])
		}
	}
	a.pos = desc + ": at the end"
	a.verify(true)
	a.close()
	return n
}

func init() {
	register(&Check{
		ID: "C06", Quick: 110, Thorough: 8000, PerProc: 12, CPULimit: 200,
		Rule:        "histories with reopening and pruning, recorded down to the file operations of both the entry and twig files and the key-value store, under randomly delayed disk operations; for each, several crash points (any operation, around syncs, around unlink/truncate/create/rename, around block ends) and losses of unsynced data (none, all, random, zeros); the crashed image is opened, compared with the model and the recorded root, and the later blocks are executed again; part of the images crash a second time during or after the repair; non-trivial: a crash inside a block",
		Assumptions: []string{"creation, removal and renaming of files reach the disk in order; data not covered by a sync is lost from the end of a file on", "keys are 8 bytes between the guards, prepared as documented"},
		New:         func() interface{} { return &CrashCase{} },
		Gen: func(r *Rand, idx int, thorough bool) interface{} {
			m := MCase{Cfg: genCfg(r)}
			c := &CrashCase{Delay: []int{0, 5, 30}[r.Intn(3)], DSeed: r.Intn(1 << 20)}
			np := 5
			if thorough {
				np = 12
			}
			classes := []int{0, 1, 1, 2, 3}
			switch {
			case idx%14 == 5:
				m.Ops = withReopens(r, genChurn(r, &m.Cfg, histGen{prune: 90}, 5, 30000), 8)
				for i := 0; i < 3; i++ {
					m.Ops = append(m.Ops, MOp{T: 0, W: genWrites(r, r.Range(1, 60), 900, false)}, MOp{T: 2, N: r.Intn(3)})
				}
				classes = []int{2, 2, 3, 1}
				c.Delay = 0
			case idx%8 == 3:
				m.Ops = withReopens(r, genMedium(r, histGen{prune: 5, concurrent: 10}), 15)
			default:
				m.Ops = withReopens(r, genSmall(r, histGen{prune: 8, concurrent: 10}, 8), 15)
			}
			c.Cfg, c.Ops = m.Cfg, m.Ops
			for i := 0; i < np; i++ {
				c.Points = append(c.Points, CrashPoint{At: r.Intn(10000), Class: classes[r.Intn(len(classes))], Loss: []int{0, 1, 1, 2, 3}[r.Intn(5)], Seed: r.Intn(1 << 20), Second: r.Chance(35), At2: r.Intn(10000)})
			}
			return c
		},
		Run: runCrash,
	})
}
