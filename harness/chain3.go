package main

import (
	"fmt"
	"sync"
	"sync/atomic"
	"time"

	"github.com/dblokhin/gringo/chain"
	"github.com/dblokhin/gringo/consensus"

	"verif/ref"
)

// ---- C13 ----

// sc13 is a stored history and a block that is right on it in everything. Difficulties are
// those of the proofs throughout, so that it does not matter where the code takes them from.
type sc13 struct {
	kind  string
	pool  *proofSet
	used  map[*uint32]bool
	hist  []ref.Hdr // before the block, oldest first
	after []ref.Hdr // another branch past the parent
	cand  ref.Hdr
	body  ref.Body
	want  []uint64 // what the retarget rule allows as the requirement
	gen   *consensus.Block
}

// stored makes the object of a stored block.
func stored(h ref.Hdr) *consensus.Block {
	b := &consensus.Block{Header: toHdr(h)}
	b.Header.Difficulty = consensus.Difficulty(h.PowDifficulty())
	return b
}

func (s *sc13) proof(c *Ctx, h *ref.Hdr, lo, hi uint64) bool {
	p, ok := s.pool.pick(c.R, lo, hi, s.used)
	if ok {
		h.EdgeBits, h.Nonces = p.bits, p.nonces
		if h.EdgeBits != 29 {
			h.Scaling = 1
		}
	}
	return ok
}

// scene builds a history of n blocks ending right below height.
func scene(c *Ctx, kind string, height uint64, n int) *sc13 {
	s := &sc13{kind: kind, pool: proofPool(c), used: map[*uint32]bool{}}
	hist := make([]ref.Hdr, n)
	pace := 1 + c.R.Int63n(150)
	ts := int64(1540000000) + c.R.Int63n(50000000)
	// difficulties around a level, steady or growing, so that an order differs from its opposite
	level := uint64(1 + c.R.Intn(12))
	mode := c.R.Intn(4)
	t := ts - 1 - c.R.Int63n(100)
	for i := n - 1; i >= 0; i-- {
		h := newHdr(c.R)
		h.Height = height - uint64(n-i)
		h.Version = versionAt(h.Height)
		h.TS = t
		lo, hi := level, 4*level
		switch mode {
		case 1:
			lo, hi = 1+uint64(i/6), 4+uint64(i/3)
		case 2:
			lo, hi = 1+uint64((n-i)/6), 4+uint64((n-i)/3)
		case 3:
			lo, hi = 0, 60
		}
		if !s.proof(c, &h, lo, hi) && !s.proof(c, &h, 0, 1<<62) {
			c.Fail("no proof left")
			return nil
		}
		hist[i] = h
		t -= 1 + c.R.Int63n(2*pace)
		if c.R.Intn(25) == 0 {
			t += c.R.Int63n(4*pace) - pace
		}
	}
	// link them up
	td := c.R.Uint64() >> 20
	for i := range hist {
		if i > 0 {
			hist[i].Prev = hist[i-1].ID()
			td += hist[i-1].PowDifficulty()
		}
		hist[i].TD = td
	}
	s.hist = hist
	par := hist[n-1]
	x := newHdr(c.R)
	x.Height, x.Version, x.TS, x.Prev, x.TD = height, versionAt(height), ts, par.ID(), td+par.PowDifficulty()
	s.require()
	if !s.proof(c, &x, s.maxWant(), s.maxWant()*2+40) {
		c.Count("scenes_too_hard", 1)
		return nil
	}
	s.cand = s.fit(x)
	if c.R.Intn(3) == 0 { // another branch already continues from the parent
		for k := 0; k < 1+c.R.Intn(4); k++ {
			h := newHdr(c.R)
			h.Height, h.TS, h.TD = height+uint64(k), ts+c.R.Int63n(5000), td+uint64(k)
			h.Prev = par.ID()
			if k > 0 {
				h.Prev = s.after[k-1].ID()
			}
			s.proof(c, &h, 0, 1<<60)
			s.after = append(s.after, h)
		}
	}
	s.body = validBody(c, 1)
	s.gen = stored(hist[0])
	return s
}

// fit makes graph size and scaling agree and blesses the header.
func (s *sc13) fit(x ref.Hdr) ref.Hdr {
	if x.EdgeBits != 29 {
		x.Scaling = 1
	}
	return bless(x)
}

// with gives the candidate another proof, of a difficulty in the range.
func (s *sc13) with(c *Ctx, lo, hi uint64) (ref.Hdr, bool) {
	x := s.cand
	ok := s.proof(c, &x, lo, hi)
	return s.fit(x), ok
}

func (s *sc13) require() {
	var ts []int64
	var df []uint64
	for i := len(s.hist) - 1; i >= 0 && len(ts) < 71; i-- {
		ts = append(ts, s.hist[i].TS)
		df = append(df, s.hist[i].PowDifficulty())
	}
	s.want = ref.Retarget(ts, df)
}

func (s *sc13) maxWant() uint64 {
	m := s.want[0]
	for _, w := range s.want {
		m = max(m, w)
	}
	return m
}
func (s *sc13) minWant() uint64 {
	m := s.want[0]
	for _, w := range s.want {
		m = min(m, w)
	}
	return m
}

func (s *sc13) store() *memStore {
	st := newStore()
	for _, h := range s.hist {
		st.push(stored(h))
	}
	for _, h := range s.after {
		st.push(stored(h))
	}
	return st
}

// object makes the block, from the wire or directly.
func object(c *Ctx, h ref.Hdr, b ref.Body) *consensus.Block {
	if c.R.Intn(2) == 0 {
		blk := new(consensus.Block)
		if err := blk.Read(newMemConn(append(h.Enc(), b.EncAsIs()...))); err == nil {
			c.Count("blocks_from_the_wire", 1)
			return blk
		}
	}
	blk := toBlock(h, b)
	blk.Header.Difficulty = consensus.Difficulty(h.PowDifficulty())
	return blk
}

// offer gives a block to a chain on the scene's storage and compares the verdict.
func (s *sc13) offer(c *Ctx, what string, h ref.Hdr, b ref.Body, accept bool) {
	s.offerTo(c, what, s.store(), h, b, accept)
}

func (s *sc13) offerTo(c *Ctx, what string, st *memStore, h ref.Hdr, b ref.Body, accept bool) {
	ch := chain.New(s.gen, st)
	tip := st.GetLastBlock()
	before := st.print()
	blk := object(c, h, b)
	c.Case("%s on %s", what, s.kind)
	var err error
	ok, p := Guard(2*time.Minute, func() { err = ch.ProcessBlock(blk) })
	if !ok {
		c.Viol(what+":hang", "processing a block (%s, %s) does not return\n%s", what, s.kind, clip(stacks(), 2000))
		return
	}
	if p != "" {
		c.Viol(what+":panic", "processing a block (%s, %s): %s", what, s.kind, p)
		return
	}
	par := s.hist[len(s.hist)-1]
	if (err == nil) != accept {
		c.Viol(fmt.Sprintf("%s:accepted=%v", what, err == nil),
			"block (%s, %s) at height %d on %d preceding and %d further stored blocks: ProcessBlock says %v; time %d after parent, total difficulty off by %d, difficulty %d, required %v",
			what, s.kind, h.Height, len(s.hist), len(s.after), err, h.TS-par.TS, int64(h.TD-par.TD-par.PowDifficulty()), h.PowDifficulty(), s.want)
	}
	if err != nil {
		hd := ch.Head()
		if ch.Height() != tip.Header.Height || ch.TotalDifficulty() != tip.Header.TotalDifficulty || blockPrint(&hd) != blockPrint(tip) {
			c.Viol("state", "a refused block (%s) changed the reported state: height %d, difficulty %d; the tip has %d, %d", what, ch.Height(), ch.TotalDifficulty(), tip.Header.Height, tip.Header.TotalDifficulty)
		}
		if st.print() != before || atomic.LoadInt32(&st.writes) != 0 {
			c.Viol("storage", "a refused block (%s) changed the storage", what)
		}
		c.Count("refused", 1)
	} else {
		c.Count("accepted", 1)
	}
	c.Count("kind_"+s.kind, 1)
	c.Eval(fmt.Sprintf("%s%x%x%x", what, before, h.Enc(), b.EncAsIs()))
}

// anyScene picks a height and a length of history.
func anyScene(c *Ctx, i int) *sc13 {
	type hn struct {
		kind   string
		height uint64
		n      int
	}
	l := []hn{{"young", 1, 1}, {"young", 2, 2}, {"short", uint64(3 + c.R.Intn(57)), 0}, {"short", uint64(59 + c.R.Intn(4)), 0},
		{"below-window", 69, 69}, {"below-window", 70, 70}, {"window", 71, 71}, {"window", 72, 72}, {"window", 73, 73},
		{"from-genesis", uint64(74 + c.R.Intn(80)), 0},
		{"deep", 1000 + uint64(c.R.Intn(90000)), 71}, {"deep", 1000 + uint64(c.R.Intn(90000)), 72 + c.R.Intn(60)},
		{"fork", []uint64{94999, 95000, 95001, 249999, 250000, 250001, 499999}[c.R.Intn(7)], 71 + c.R.Intn(5)}}
	x := l[i%len(l)]
	if x.n == 0 {
		x.n = int(x.height)
	}
	return scene(c, x.kind, x.height, x.n)
}

func c13rules(part, parts int) func(*Ctx) {
	return func(c *Ctx) {
		if !hooked(c) {
			return
		}
		rangeOuts(c, 14)
		for i := 0; c.More(i, 26); i++ {
			s := anyScene(c, i*parts+part)
			if s == nil {
				continue
			}
			if i == 0 {
				c.Sample(map[string]interface{}{"kind": s.kind, "height": s.cand.Height, "stored": len(s.hist), "required": s.want, "difficulty": s.cand.PowDifficulty()})
			}
			s.offer(c, "right", s.cand, s.body, true)
			if x, ok := s.with(c, s.maxWant(), s.maxWant()); ok {
				s.offer(c, "difficulty-exact", x, s.body, true)
				c.Count("exact_difficulties", 1)
			}
			if x, ok := s.with(c, s.maxWant()*3, 1<<62); ok {
				s.offer(c, "difficulty-above", x, s.body, true)
			}
			if s.minWant() > 0 {
				if x, ok := s.with(c, s.minWant()-1, s.minWant()-1); ok {
					s.offer(c, "difficulty-below", x, s.body, false)
					c.Count("difficulties_one_below", 1)
				}
				if x, ok := s.with(c, 0, s.minWant()-1); ok {
					s.offer(c, "difficulty-lower", x, s.body, false)
				}
			}
			par := s.hist[len(s.hist)-1]
			// total difficulty
			for _, off := range []int64{1, -1, int64(c.R.Uint64() >> 20), -int64(par.PowDifficulty()), int64(s.cand.PowDifficulty()) - int64(par.PowDifficulty()), 1 << 32, -1 << 32, -1 << 63} {
				if off == 0 {
					continue
				}
				x := s.cand
				x.TD += uint64(off)
				s.offer(c, "total-difficulty", bless(x), s.body, false)
			}
			// time
			for _, dt := range []int64{0, -1, -2, -3600, 1, 2, 100000} {
				x := s.cand
				x.TS = par.TS + dt
				s.offer(c, fmt.Sprintf("time%+d", dt), bless(x), s.body, dt > 0)
			}
			// invalid by itself
			b := s.body
			b.Kers = append([]ref.Ker(nil), s.body.Kers...)
			b.Kers[c.R.Intn(len(b.Kers))].Sig[c.R.Intn(64)] ^= 1 << uint(c.R.Intn(8))
			s.offer(c, "kernel-signature", s.cand, b.Sorted(), false)
			s.offer(c, "no-kernels", s.cand, ref.Body{Ins: s.body.Ins, Outs: s.body.Outs}, false)
			s.offer(c, "no-outputs", s.cand, ref.Body{Ins: s.body.Ins, Kers: s.body.Kers}, false)
			x := s.cand
			x.Nonce++
			s.offer(c, "no-proof", x, s.body, false)
			x = s.cand
			x.Version += uint16(1 + c.R.Intn(3))
			s.offer(c, "version", bless(x), s.body, false)
			x = s.cand
			x.TS = time.Now().Unix() + 3600
			s.offer(c, "future", bless(x), s.body, false)
			s.offer(c, "right-again", s.cand, s.body, true)
			s.plainFields(c)
			c13tip(c, s)
		}
	}
}

// plainFields: stored blocks of which the difficulty field says something else than the proof,
// as with the genesis blocks, where it is not set. The parent's part in the total is that of
// its proof; the requirement does not depend on the fields as long as there is no full window.
func (s *sc13) plainFields(c *Ctx) {
	if len(s.hist) > 70 {
		return
	}
	par := s.hist[len(s.hist)-1]
	for _, set := range []uint64{0, 1, par.PowDifficulty() + 1, 1 << 30} {
		if set == par.PowDifficulty() {
			continue
		}
		st := newStore()
		for _, h := range s.hist {
			b := stored(h)
			b.Header.Difficulty = consensus.Difficulty(set)
			st.push(b)
		}
		s.offerTo(c, "right-on-plain", st, s.cand, s.body, true)
		x := s.cand
		x.TD = par.TD + set
		s.offerTo(c, "total-of-field", st, bless(x), s.body, false)
		c.Count("plain_parents", 1)
	}
}

// c13tip offers the tip again, a valid one and one that is nothing but stored.
func c13tip(c *Ctx, s *sc13) {
	for _, mined := range []bool{true, false} {
		st := newStore()
		for _, h := range s.hist {
			st.push(stored(h))
		}
		tip := object(c, s.cand, s.body)
		if !mined {
			x := s.cand
			x.Nonce++
			tip = object(c, x, s.body)
		}
		st.push(tip)
		before := st.print()
		ch := chain.New(s.gen, st)
		again := object(c, fromHdr(&tip.Header), s.body)
		var err error
		ok, p := Guard(time.Minute, func() { err = ch.ProcessBlock(again) })
		if !ok || p != "" || err != nil {
			c.Viol("tip", "the tip offered again: returned=%v, %v %s", ok, err, p)
		}
		hd := ch.Head()
		if st.print() != before || atomic.LoadInt32(&st.writes) != 0 || ch.Height() != tip.Header.Height || ch.TotalDifficulty() != tip.Header.TotalDifficulty || blockPrint(&hd) != blockPrint(tip) {
			c.Viol("tip", "the tip offered again changed the state")
		}
		c.Count("tip_again", 1)
		c.Eval("tip" + before)
	}
}

// c13window changes only what lies outside the 71 blocks before the block, or puts the
// requirement right at the block's difficulty by what lies within.
func c13window(c *Ctx) {
	if !hooked(c) {
		return
	}
	rangeOuts(c, 14)
	for i := 0; c.More(i, 90); i++ {
		n := 71 + c.R.Intn(40)
		height := uint64(n) + uint64(c.R.Intn(2))*uint64(c.R.Intn(90000))
		s := scene(c, "window", height, n)
		if s == nil {
			continue
		}
		for k := range s.hist {
			h := &s.hist[k]
			if n-k > 71 { // older: cannot matter
				s.proof(c, h, 0, 1<<62)
				h.TS = rndTS(c.R) >> 2
			}
		}
		s.require()
		if x, ok := s.with(c, s.maxWant(), s.maxWant()); ok {
			s.offer(c, "window-exact", x, s.body, true)
		}
		if x, ok := s.with(c, s.minWant()-1, s.minWant()-1); ok && s.minWant() > 0 {
			s.offer(c, "window-below", x, s.body, false)
		}
		if i%4 == 0 {
			// parent unknown: whatever the verdict, nothing breaks
			t := *s
			t.hist, t.after = s.hist[:n-1], nil
			st := t.store()
			ch := chain.New(s.gen, st)
			before := st.print()
			blk := object(c, s.cand, s.body)
			ok, p := Guard(time.Minute, func() { ch.ProcessBlock(blk) })
			if !ok || p != "" {
				c.Viol("orphan", "a block without its parent: returned=%v %s", ok, p)
			}
			if st.print() != before {
				c.Viol("orphan-storage", "a block without its parent changed the stored chain")
			}
			c.Count("orphans", 1)
		}
	}
}

// c13history offers blocks to one chain one after the other, while the storage grows: what
// came before must not matter.
func c13history(c *Ctx) {
	if !hooked(c) {
		return
	}
	rangeOuts(c, 6)
	for i := 0; c.More(i, 12); i++ {
		s := anyScene(c, c.R.Intn(1000))
		if s == nil {
			continue
		}
		s.after = nil
		st := s.store()
		ch := chain.New(s.gen, st)
		tip0 := blockPrint(st.GetLastBlock())
		for k := 0; k < 14; k++ {
			x, b, accept, what := s.cand, s.body, true, "right"
			par := s.hist[len(s.hist)-1]
			switch c.R.Intn(6) {
			case 0:
				x.TD++
				accept, what = false, "total-difficulty"
				bless(x)
			case 1:
				x.TS = par.TS
				accept, what = false, "time"
				bless(x)
			case 2:
				x.Nonce++
				accept, what = false, "no-proof"
			case 3:
				b.Kers = nil
				accept, what = false, "no-kernels"
			}
			var err error
			blk := object(c, x, b)
			ok, p := Guard(time.Minute, func() { err = ch.ProcessBlock(blk) })
			if !ok || p != "" {
				c.Viol("history:"+what, "block %d of a history: returned=%v %s", k, ok, p)
				break
			}
			if (err == nil) != accept {
				c.Viol(fmt.Sprintf("history:%s:accepted=%v", what, err == nil), "block %d (%s) of a history on %d stored blocks: %v", k, what, len(s.hist), err)
			}
			if err != nil {
				hd := ch.Head()
				if blockPrint(&hd) != tip0 {
					c.Viol("state", "a refused block (%s) changed the reported tip", what)
				}
			}
			c.Eval(fmt.Sprint("history", i, k, s.cand))
			c.Count("history_blocks", 1)
			if accept && c.R.Intn(2) == 0 {
				// the storage gains it; the next block builds on it
				st.mu.Lock()
				if _, ok := st.byHash[string(blk.Hash())]; !ok {
					st.push(blk)
				}
				st.mu.Unlock()
				s.hist = append(s.hist, x)
				s.require()
				y := newHdr(c.R)
				y.Height = x.Height + 1
				if y.Height >= 500000 {
					break
				}
				y.Version, y.TS, y.Prev, y.TD = versionAt(y.Height), x.TS+1+c.R.Int63n(100), x.ID(), x.TD+x.PowDifficulty()
				if !s.proof(c, &y, s.maxWant(), s.maxWant()*2+40) {
					break
				}
				s.cand = s.fit(y)
			}
			tip0 = func() string { hd := ch.Head(); return blockPrint(&hd) }()
		}
	}
}

// c13reorg offers blocks of one height, or nearly, to one chain whose stored history is replaced in between.
func c13reorg(c *Ctx) {
	if !hooked(c) {
		return
	}
	rangeOuts(c, 6)
	for i := 0; c.More(i, 8); i++ {
		height := uint64(80 + c.R.Intn(2000))
		var ss []*sc13
		for len(ss) < 4 {
			h := height
			if len(ss) == 3 {
				h += uint64(c.R.Intn(3))
			}
			if s := scene(c, "replaced", h, 72+c.R.Intn(8)); s != nil {
				s.after = nil
				ss = append(ss, s)
			}
		}
		st := ss[0].store()
		ch := chain.New(ss[0].gen, st)
		tip := func() string { hd := ch.Head(); return fmt.Sprint(blockPrint(&hd), ch.Height(), ch.TotalDifficulty()) }
		first := tip()
		reqs := map[uint64]bool{}
		for k := 0; k < 16; k++ {
			s := ss[k%len(ss)]
			if k >= 2*len(ss) {
				s = ss[c.R.Intn(len(ss))]
			}
			now := s.store()
			st.mu.Lock()
			st.list, st.byHash = now.list, now.byHash
			st.mu.Unlock()
			reqs[s.maxWant()] = true
			x, what, accept := s.cand, "right", true
			switch (k/len(ss) + k) % 3 {
			case 0:
				if y, ok := s.with(c, s.maxWant(), s.maxWant()); ok {
					x, what = y, "exact"
				}
			case 1:
				if y, ok := s.with(c, 0, s.minWant()-1); ok && s.minWant() > 0 {
					x, what, accept = y, "low", false
				}
			}
			blk := object(c, x, s.body)
			var err error
			ok, p := Guard(time.Minute, func() { err = ch.ProcessBlock(blk) })
			if !ok || p != "" {
				c.Viol("replaced:"+what, "block %d on replaced histories: returned=%v %s", k, ok, p)
				break
			}
			if (err == nil) != accept {
				c.Viol(fmt.Sprintf("replaced:%s:accepted=%v", what, err == nil), "block %d (%s, difficulty %d, required %v after the history stored now, %d requirements seen) at height %d on a chain whose stored history was replaced: %v",
					k, what, x.PowDifficulty(), s.want, len(reqs), x.Height, err)
			}
			if err != nil && tip() != first {
				c.Viol("state", "a refused block (%s) changed the reported tip", what)
			}
			first = tip()
			c.Eval(fmt.Sprint("replaced", i, k, x))
			c.Count("replaced_histories", 1)
		}
		c.Max("max_requirements_seen", int64(len(reqs)))
	}
}

// c13mined offers really mined blocks as they come from the wire.
func c13mined(c *Ctx) {
	rangeOuts(c, 14)
	for _, kid := range availChildren() {
		f := fixtureHdr(c, kid)
		par, ok := parentFor(c, kid)
		if !ok {
			c.Fail("no parent for fixture %s", kid)
			return
		}
		s := &sc13{kind: "mined-" + kid}
		n := int(min(f.Height, uint64(71+c.R.Intn(20))))
		for k := 0; k < n; k++ {
			h := newHdr(c.R)
			h.Height = f.Height - uint64(n-k)
			// a pace that lets the requirement fall to 1, which every such proof has
			h.TS = f.TS - int64(n-k)*200
			s.hist = append(s.hist, h)
		}
		ph := &s.hist[n-1]
		ph.EdgeBits, ph.Nonces = par.EdgeBits, par.Nonces
		ph.TD = f.TD - ph.PowDifficulty()
		s.require()
		s.gen = stored(s.hist[0])
		if s.maxWant() > f.PowDifficulty() {
			c.Count("too_weak_proofs", 1)
			continue
		}
		b := validBody(c, 1)
		s.offer(c, "mined", f, b, true)
		x := f
		x.Nonce++
		s.offer(c, "mined-altered", x, b, false)
		ph.TD++
		s.offer(c, "mined-total-difficulty", f, b, false)
		ph.TD--
		ph.TS = f.TS
		s.offer(c, "mined-time", f, b, false)
	}
}

var childFixtures = []string{"b1", "b2", "b3", "b1fork", "g1", "h71", "h72", "bhard"}

func availChildren() (l []string) {
	for _, n := range childFixtures {
		if haveFixture(n) {
			l = append(l, n)
		}
	}
	return
}

// parentFor finds the proof of a mined block's parent: it is fixed by the link to it.
func parentFor(c *Ctx, child string) (ref.Hdr, bool) {
	f := fixtureHdr(c, child)
	for _, n := range fixtureNames() {
		p := fixtureHdr(c, n)
		if p.ID() == f.Prev {
			return p, true
		}
	}
	g := chain.Testnet4.Header
	if h := fromHdr(&g); h.ID() == f.Prev {
		return h, true
	}
	h := ref.Hdr{EdgeBits: 29}
	for i := uint32(1); i <= 42; i++ { // a proof of difficulty 2727
		h.Nonces = append(h.Nonces, 18928+i)
	}
	return h, h.ID() == f.Prev
}

// ---- C14 ----

func judge14(c *Ctx, what string, gen *consensus.Block, st *memStore, want bool) {
	verdict14(c, what, chain.New(gen, st), st, want)
}

func verdict14(c *Ctx, what string, ch *chain.Chain, st *memStore, want bool) {
	before := st.print()
	c.Case("%s, %d stored blocks", what, len(st.list))
	var err error
	ok, p := Guard(4*time.Minute+2*time.Second*time.Duration(len(st.list)), func() { err = ch.Validate() })
	if !ok {
		c.Viol(what+":hang", "Validate does not return\n%s", clip(stacks(), 2000))
		return
	}
	if p != "" {
		c.Viol(what+":panic", "%s", p)
		return
	}
	if (err == nil) != want {
		c.Viol(fmt.Sprintf("%s:valid=%v", what, err == nil), "whole-chain validation of %d stored blocks (%s) says %v", len(st.list), what, err)
	}
	if st.print() != before || atomic.LoadInt32(&st.writes) != 0 {
		c.Viol("storage", "validation changed the stored blocks")
	}
	// the chain is not left locked
	ok, _ = Guard(Long, func() { ch.Lock(); ch.Unlock() })
	if !ok {
		c.Viol("locked", "validation (%s) left the chain locked", what)
	}
	if want {
		c.Count("intact", 1)
	} else {
		c.Count("broken", 1)
	}
	c.Eval(what + before)
}

func c14genesis(c *Ctx) {
	gens := []*consensus.Block{&chain.Testnet4, &chain.Testnet3, &chain.Testnet2, &chain.Testnet1, &chain.Mainnet}
	for i, g := range gens {
		judge14(c, fmt.Sprintf("genesis-only-%d", i), g, newStore(), true)
		judge14(c, fmt.Sprintf("genesis-stored-%d", i), g, newStore(g), true)
	}
	// a genesis block of one's own need not be valid by itself
	for i := 0; c.More(i, 40); i++ {
		g := &consensus.Block{Header: synthHdr(c.R, uint64(i%2))}
		judge14(c, "genesis-own", g, newStore(), true)
		judge14(c, "genesis-own-stored", g, newStore(g), true)
	}
	// really mined blocks
	names := []string{"b1"}
	for _, n := range []string{"b2", "b3"} {
		if haveFixture(n) {
			names = append(names, n)
		}
	}
	for n := 1; n <= len(names); n++ {
		g := toBlock(fixtureHdr(c, "b0"), ref.Body{})
		bs := []*consensus.Block{g}
		for _, nm := range names[:n] {
			bs = append(bs, toBlock(fixtureHdr(c, nm), validBody(c, 1)))
		}
		judge14(c, "mined", g, newStore(bs...), true)
		for k := 1; k <= n; k++ {
			bs[k].Header.Nonce++
			judge14(c, "mined-altered", g, newStore(bs...), false)
			bs[k].Header.Nonce--
		}
	}
}

func c14chains(lens []int, rounds int) func(*Ctx) {
	return func(c *Ctx) {
		if !hooked(c) {
			return
		}
		rangeOuts(c, 14)
		bodies := []ref.Body{}
		for i := 0; i < 5; i++ {
			bodies = append(bodies, validBody(c, 1))
		}
		for i := 0; c.More(i, rounds); i++ {
			n := lens[i%len(lens)]
			type blk struct {
				h ref.Hdr
				b ref.Body
			}
			var bs []blk // bs[0] is the genesis block
			start := anyHeight(c.R)
			if start+uint64(n) >= 499990 {
				start -= uint64(n + 10)
			}
			if c.R.Intn(2) == 0 {
				start = 0
			}
			t := int64(1540000000)
			td := c.R.Uint64() >> 20
			for k := 0; k <= n; k++ {
				h := newHdr(c.R)
				h.Height = start + uint64(k)
				h.Version = versionAt(h.Height)
				t += 1 + c.R.Int63n(100)
				h.TS = t
				if k > 0 {
					h.Prev = bs[k-1].h.ID()
				}
				td += h.PowDifficulty()
				h.TD = td
				bs = append(bs, blk{bless(h), bodies[c.R.Intn(len(bodies))]})
			}
			mk := func(l []blk) (gen *consensus.Block, st *memStore) {
				st = newStore()
				for k, x := range l {
					b := object(c, x.h, x.b)
					if k == 0 {
						gen = b
					}
					st.push(b)
				}
				return
			}
			try := func(what string, l []blk, want bool) {
				g, st := mk(l)
				judge14(c, what, g, st, want)
			}
			alt := func(k int, f func(x *blk)) []blk {
				l := append([]blk(nil), bs...)
				x := l[k]
				f(&x)
				l[k] = x
				return l
			}
			try("intact", bs, true)
			g, _ := mk(bs)
			_, st := mk(bs[1:])
			judge14(c, "intact-genesis-not-stored", g, st, true)
			where := []int{1, n, 1 + c.R.Intn(n), 1 + c.R.Intn(n), min(2, n), max(1, n-1)}
			if n > 20 && !c.Thorough {
				where = []int{1, n, 2 + c.R.Intn(n-2)}
			}
			seen := map[int]bool{}
			for _, k := range where {
				if seen[k] {
					continue
				}
				seen[k] = true
				pos := "inner"
				if k == n {
					pos = "tip"
				} else if k == 1 {
					pos = "first"
				}
				try("bad-signature-"+pos, alt(k, func(x *blk) {
					x.b.Kers = append([]ref.Ker(nil), x.b.Kers...)
					x.b.Kers[c.R.Intn(len(x.b.Kers))].Sig[c.R.Intn(64)] ^= 1 << uint(c.R.Intn(8))
					x.b = x.b.Sorted()
				}), false)
				try("no-outputs-"+pos, alt(k, func(x *blk) { x.b.Outs = nil }), false)
				try("no-kernels-"+pos, alt(k, func(x *blk) { x.b.Kers = nil }), false)
				try("bad-range-proof-"+pos, alt(k, func(x *blk) {
					o := x.b.Outs[0]
					p, _ := ref.UnCommit33(o.Commit)
					o.Commit = ref.Commit33(ref.Add(p, ref.H()))
					x.b.Outs = []ref.Out{o}
				}), false)
				try("bad-proof-of-work-"+pos, alt(k, func(x *blk) { x.h.TD++ }), false)
				try("bad-version-"+pos, alt(k, func(x *blk) { x.h.Version++; bless(x.h) }), false)
				try("from-the-future-"+pos, alt(k, func(x *blk) { x.h.TS = time.Now().Unix() + 7200; bless(x.h) }), false)
				try("bad-link-"+pos, alt(k, func(x *blk) { x.h.Prev[c.R.Intn(32)] ^= 1; bless(x.h) }), false)
				try("self-link-"+pos, alt(k, func(x *blk) { x.h.Prev = x.h.ID() }), false)
				if k < n {
					g, st := mk(bs)
					id := bs[k].h.ID()
					st.drop(id[:])
					judge14(c, "missing-"+pos, g, st, false)
					to := k + 1 + c.R.Intn(n-k)
					try("loop-"+pos, alt(k, func(x *blk) { x.h.Prev = bs[to].h.ID() }), false)
				}
			}
			// the verdict is about what is stored now, not about what was stored when it was last asked
			if n > 1 && n < 20 {
				g, st := mk(bs)
				ch := chain.New(g, st)
				for r := 0; r < 3; r++ {
					verdict14(c, "again-intact", ch, st, true)
					k := 1 + c.R.Intn(n-1)
					id := bs[k].h.ID()
					old := st.list[k]
					bad := bs[k].b
					bad.Kers = append([]ref.Ker(nil), bad.Kers...)
					bad.Kers[c.R.Intn(len(bad.Kers))].Sig[c.R.Intn(64)] ^= 1 << uint(c.R.Intn(8))
					st.list[k] = object(c, bs[k].h, bad.Sorted())
					verdict14(c, "since-altered", ch, st, false)
					if c.R.Intn(2) == 0 {
						st.list[k] = old
						verdict14(c, "again-restored", ch, st, true)
					}
					st.drop(id[:])
					verdict14(c, "since-missing", ch, st, false)
					st.list[k] = old
					st.byHash[string(id[:])] = k
				}
				verdict14(c, "again-intact", ch, st, true)
			}
			// a chain that ends in another genesis
			other := &consensus.Block{Header: synthHdr(c.R, 0)}
			_, st = mk(bs)
			judge14(c, "other-genesis", other, st, false)
			_, st = mk(bs[1:])
			judge14(c, "other-genesis-cut", other, st, false)
			// an invalid genesis block is not judged
			l := append([]blk(nil), bs...)
			l[0].h.Nonce++
			l[0].b = ref.Body{}
			try("genesis-invalid", l, true)
		}
	}
}

// c14deep breaks long chains far below the tip. Each validation is long, so they run side by side.
func c14deep(c *Ctx) {
	if !hooked(c) {
		return
	}
	rangeOuts(c, 14)
	n := 130
	if c.Thorough {
		n = 530
	}
	body := validBody(c, 1)
	g := synthHdr(c.R, 0)
	bs := []*consensus.Block{{Header: g}}
	prev := bs[0].Hash()
	t, td := int64(1540000000), uint64(1000)
	for k := 1; k <= n; k++ {
		h := newHdr(c.R)
		h.Height, h.Version = uint64(k), 1
		t += 1 + c.R.Int63n(100)
		h.TS, h.TD = t, td
		copy(h.Prev[:], prev)
		td += h.PowDifficulty()
		b := object(c, bless(h), body)
		bs, prev = append(bs, b), b.Hash()
	}
	bad := ref.Body{Outs: body.Outs, Kers: append([]ref.Ker(nil), body.Kers...)}
	bad.Kers[0].Sig[c.R.Intn(64)] ^= 1
	var wg sync.WaitGroup
	run := func(what string, k int, alter func(st *memStore), want bool) {
		st := newStore(bs...)
		if alter != nil {
			alter(st)
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			verdict14(c, fmt.Sprintf("%s at %d of %d", what, k, n), chain.New(bs[0], st), st, want)
		}()
	}
	run("deep intact", n, nil, true)
	at := []int{1, 2 + c.R.Intn(20), 20 + c.R.Intn(50)}
	for i, k := range at {
		h, _ := fromBlock(bs[k])
		if i < 2 {
			b := object(c, h, bad)
			run("deep bad signature", k, func(st *memStore) { st.list[k] = b }, false)
		} else {
			b := toBlock(h, body)
			b.Header.Nonce++
			run("deep bad proof", k, func(st *memStore) { st.list[k] = b }, false)
			run("deep missing", k-1, func(st *memStore) { st.drop(bs[k-1].Hash()) }, false)
		}
	}
	wg.Wait()
	c.Max("max_depth", int64(n))
}

func init() {
	jobs := []Job{{Name: "window", Fn: c13window}, {Name: "mined", Fn: c13mined}, {Name: "history", Fn: c13history}, {Name: "replaced", Fn: c13reorg}}
	for i := 0; i < 3; i++ {
		jobs = append(jobs, Job{Name: fmt.Sprintf("rules%d", i), Fn: c13rules(i, 3)})
	}
	register(&Prop{ID: "C13", Min: 300,
		Rule:   "blocks (mined ones, and ones whose proof the verif hook lets count) offered, in memory and read from the wire, on stored histories of 1 to 150 blocks at heights from 1 over the retarget window's edge to the fork heights, with varying times and proofs of chosen difficulty: everything right, each rule broken by the least amount, blocks invalid by themselves, further blocks stored past the parent, the tip again, sequences on one chain while the storage grows; verdicts compared with an independent retarget; state and storage fingerprinted around each refusal. Distinct by history and block.",
		Assume: []string{"storage behaves as its interface documents (a linear model is used)", "a block's difficulty is that of its proof"},
		Jobs:   jobs})
	register(&Prop{ID: "C14", Min: 100,
		Rule:   "chains of 1 to 40 blocks (a few mined, most blessed) and genesis-only chains, intact and with blocks in turn made invalid (signature, outputs, kernels, range proof, proof of work, version, time), mislinked, looped or missing; verdict compared with the fault injected. Distinct by chain.",
		Assume: []string{"storage behaves as its interface documents (a linear model is used)"},
		Jobs: []Job{{Name: "genesis", Fn: c14genesis}, {Name: "short", Fn: c14chains([]int{1, 2, 3}, 6)}, {Name: "mid", Fn: c14chains([]int{4, 7}, 2)},
			{Name: "long", Fn: c14chains([]int{30}, 1)}, {Name: "deep", Fn: c14deep}}})
}
