package main

import (
	"fmt"
	"math/rand"
	"reflect"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/dblokhin/gringo/chain"
	"github.com/dblokhin/gringo/consensus"

	"verif/ref"
)

// ---- C15 ----

// c15chain is a chain on which blocks of every outcome can be offered.
type c15chain struct {
	ch     *chain.Chain
	st     *memStore
	tip    *consensus.Block
	blocks []offered
	hdrs   []offeredHdr
	valid  bool // as a whole
	// a block that fits on the tip, one that fits on that, and one that doesn't
	right, next, nextBad *consensus.Block
}

type offered struct {
	what   string
	blk    *consensus.Block
	accept bool
	any    bool // no verdict demanded
}

type offeredHdr struct {
	hs     []consensus.BlockHeader
	accept bool
}

// makeC15 makes a scene for C15: with n above 0 on a chain of n blocks that is valid as a whole.
func makeC15(c *Ctx, full bool, n int) *c15chain {
	s := anyScene(c, c.R.Intn(1000))
	for s == nil {
		s = anyScene(c, c.R.Intn(1000))
	}
	x := &c15chain{st: s.store()}
	// a genesis alone is valid, the histories before a scene's block are not
	x.valid = len(x.st.list) == 1
	if n > 0 {
		for s = nil; s == nil; {
			s = scene(c, "young", uint64(n), n)
		}
		s.after = nil
		x.st, x.valid = newStore(), true
		for _, h := range s.hist {
			x.st.push(object(c, bless(h), s.body))
		}
	}
	x.tip = x.st.GetLastBlock()
	x.ch = chain.New(x.st.list[0], x.st)
	add := func(what string, h ref.Hdr, b ref.Body, accept bool) {
		x.blocks = append(x.blocks, offered{what: what, blk: object(c, h, b), accept: accept})
	}
	x.blocks = append(x.blocks, offered{what: "tip", blk: x.tip, accept: true})
	last := s.hist[len(s.hist)-1]
	if full {
		// what follows the right block
		h := s.cand
		h.Prev, h.Height = s.cand.ID(), h.Height+1
		h.Version, h.TS, h.TD = versionAt(h.Height), h.TS+1, h.TD+s.cand.PowDifficulty()
		x.right = object(c, s.cand, s.body)
		x.next = object(c, bless(h), s.body)
		h.TD++
		x.nextBad = object(c, bless(h), s.body)
	}
	add("stored, unmined", last, ref.Body{}, len(s.after) == 0)
	for i := 0; i < 3; i++ {
		add("unmined", rndHdr(c.R), ref.Body{}, false)
	}
	f := s.cand
	add("no outputs", f, ref.Body{Kers: s.body.Kers}, false)
	add("no kernels", f, ref.Body{Outs: s.body.Outs}, false)
	bad := f
	bad.Nonce++
	add("wrong nonce", bad, s.body, false)
	ks := s.body
	ks.Kers = append([]ref.Ker(nil), ks.Kers...)
	ks.Kers[0].Sig[5] ^= 1
	if full {
		add("wrong signature", f, ks.Sorted(), false)
		add("right", f, s.body, true)
		y := f
		y.TD++
		add("wrong total difficulty", bless(y), s.body, false)
		y = f
		y.TS = last.TS
		add("not after its parent", bless(y), s.body, false)
		if y, ok := s.with(c, 0, s.minWant()-1); ok && s.minWant() > 0 {
			add("low difficulty", y, s.body, false)
		}
		y = f
		y.Prev = rnd32(c.R)
		x.blocks = append(x.blocks, offered{what: "orphan", blk: object(c, bless(y), s.body), any: true})
	}
	good := []consensus.BlockHeader{toHdr(f)}
	for i := 0; i < 2; i++ {
		good = append(good, toHdr(bless(newHdr(c.R))))
	}
	x.hdrs = append(x.hdrs, offeredHdr{good, true}, offeredHdr{nil, true},
		offeredHdr{append(append([]consensus.BlockHeader(nil), good...), toHdr(bad)), false},
		offeredHdr{append([]consensus.BlockHeader{toHdr(bad)}, good...), false},
		offeredHdr{[]consensus.BlockHeader{toHdr(rndHdr(c.R))}, false})
	return x
}

// c15stress runs queries and processing concurrently; with a single answer possible for
// each of them, since nothing is ever applied.
func c15stress(rounds, ops int, full bool) func(*Ctx) {
	return func(c *Ctx) {
		if !hooked(c) {
			return
		}
		rangeOuts(c, 6)
		for round := 0; c.More(round, rounds); round++ {
			n := 0
			if full {
				n = []int{2, 0, 3, 1}[round%4]
			}
			x := makeC15(c, full, n)
			var slow int32
			x.st.pause = func() {
				// hold the chain inside a lookup while others queue up
				switch atomic.AddInt32(&slow, 1) % 7 {
				case 0:
					time.Sleep(200 * time.Microsecond)
				case 3:
					runtime.Gosched()
				}
			}
			before := x.st.print()
			tipPrint := blockPrint(x.tip)
			var locs []consensus.Locator
			var ans [][]consensus.BlockHeader
			for k := 0; k < 6; k++ {
				b := x.st.list[c.R.Intn(len(x.st.list))]
				u := rnd32(c.R)
				loc := consensus.Locator{Hashes: []consensus.Hash{consensus.Hash(u[:]), b.Hash()}}
				locs = append(locs, loc)
				ans = append(ans, x.ch.GetBlockHeaders(loc)) // C12 judges the answer itself
			}
			var wg sync.WaitGroup
			var done int64
			workers := 12
			for w := 0; w < workers; w++ {
				wg.Add(1)
				go func(w int, r *rand.Rand) {
					defer wg.Done()
					for k := 0; k < ops; k++ {
						switch r.Intn(9) {
						case 0:
							i := r.Intn(len(locs))
							got := x.ch.GetBlockHeaders(locs[i])
							if len(got) != len(ans[i]) || len(got) > 0 && !reflect.DeepEqual(got, ans[i]) {
								c.Viol("headers", "a header request under load is answered differently: %d headers, not %d", len(got), len(ans[i]))
							}
							c.Count("headers", 1)
						case 1:
							b := x.st.list[r.Intn(len(x.st.list))]
							got := x.ch.GetBlock(b.Hash())
							if got == nil || blockPrint(got) != blockPrint(b) {
								c.Viol("block", "a block lookup under load gives another block or none")
							}
							u := rnd32(r)
							if x.ch.GetBlock(consensus.Hash(u[:])) != nil {
								c.Viol("block", "a lookup of an unknown block under load finds one")
							}
							c.Count("lookups", 1)
						case 2:
							// as the network code does, under the read lock
							x.ch.RLock()
							h, td := x.ch.Height(), x.ch.TotalDifficulty()
							x.ch.RUnlock()
							if h != x.tip.Header.Height || td != x.tip.Header.TotalDifficulty {
								c.Viol("state", "height %d and difficulty %d reported under load, the tip has %d and %d", h, td, x.tip.Header.Height, x.tip.Header.TotalDifficulty)
							}
							c.Count("states", 1)
						case 3:
							if x.ch.Height() != x.tip.Header.Height || x.ch.TotalDifficulty() != x.tip.Header.TotalDifficulty {
								c.Viol("state", "another state reported under load")
							}
							hd := x.ch.Head()
							if blockPrint(&hd) != tipPrint {
								c.Viol("head", "another tip reported under load")
							}
							g := x.ch.Genesis()
							if g.Header.Height != x.st.list[0].Header.Height {
								c.Viol("genesis", "another genesis reported under load")
							}
							c.Count("tips", 1)
						case 4:
							h := x.hdrs[r.Intn(len(x.hdrs))]
							if err := x.ch.ProcessHeaders(h.hs); (err == nil) != h.accept {
								c.Viol("process-headers", "a list of %d headers under load: %v", len(h.hs), err)
							}
							c.Count("header_lists", 1)
						case 5:
							if err := x.ch.Validate(); (err == nil) != x.valid {
								c.Viol("validate", "a chain (valid=%v) validated under load: %v", x.valid, err)
							}
							c.Count("validations", 1)
						default:
							o := x.blocks[r.Intn(len(x.blocks))]
							err := x.ch.ProcessBlock(o.blk)
							if !o.any && (err == nil) != o.accept {
								c.Viol("process-block:"+o.what, "block (%s) processed under load: %v", o.what, err)
							}
							c.Count("blocks "+o.what, 1)
						}
						atomic.AddInt64(&done, 1)
						c.Eval(fmt.Sprintf("%d/%d/%d", round, w, k))
					}
				}(w, subRand(c.R))
			}
			fin := make(chan struct{})
			go func() { wg.Wait(); close(fin) }()
			last := int64(-1)
		wait:
			for {
				select {
				case <-fin:
					break wait
				case <-time.After(2 * Long):
					if n := atomic.LoadInt64(&done); n != last {
						last = n
						continue
					}
					c.Viol("stuck", "concurrent calls made no progress for %v\n%s", 2*Long, clip(stacks(), 2500))
					return
				}
			}
			if x.st.print() != before {
				c.Viol("storage", "the stored blocks changed")
			}
			c.Count("rounds", 1)
		}
	}
}

// c15outcomes looks after each call, whatever its outcome, whether the chain is free.
func c15outcomes(c *Ctx) {
	if !hooked(c) {
		return
	}
	rangeOuts(c, 6)
	for round := 0; c.More(round, 4); round++ {
		x := makeC15(c, true, []int{2, 0, 3, 1}[round%4])
		free := func(what string) bool {
			ok, p := Guard(Long, func() {
				x.ch.Lock()
				x.ch.Unlock()
				x.ch.RLock()
				x.ch.RUnlock()
				x.ch.GetBlockHeaders(consensus.Locator{Hashes: []consensus.Hash{x.tip.Hash()}})
			})
			c.Eval(fmt.Sprint(round, what))
			if !ok || p != "" {
				c.Viol("locked:"+what, "after %s the chain stays locked %s", what, p)
				return false
			}
			return true
		}
		call := func(what string, f func()) bool {
			c.Case("%s", what)
			ok, p := Guard(2*Long, f)
			if !ok || p != "" {
				c.Viol("call:"+what, "%s: returned=%v %s\n%s", what, ok, p, clip(stacks(), 2000))
				return false
			}
			return free(what)
		}
		for _, o := range x.blocks {
			o := o
			if !call("block ("+o.what+")", func() { x.ch.ProcessBlock(o.blk) }) {
				return
			}
		}
		for i, h := range x.hdrs {
			h := h
			if !call(fmt.Sprint("headers ", i), func() { x.ch.ProcessHeaders(h.hs) }) {
				return
			}
		}
		if !call("validation", func() {
			if err := x.ch.Validate(); (err == nil) != x.valid {
				c.Viol("validate", "a chain (valid=%v) validated: %v", x.valid, err)
			}
		}) {
			return
		}
		var big []consensus.Hash
		for i := 0; i < 20; i++ {
			u := rnd32(c.R)
			big = append(big, consensus.Hash(u[:]))
		}
		for n, hs := range [][]consensus.Hash{nil, {nil}, {x.tip.Hash()}, {x.st.list[0].Hash()}, big} {
			hs := hs
			if !call(fmt.Sprint("header request ", n), func() { x.ch.GetBlockHeaders(consensus.Locator{Hashes: hs}) }) {
				return
			}
		}
		if !call("lookups", func() { x.ch.GetBlock(nil); x.ch.GetBlock(big[0]); x.ch.GetBlockID(consensus.BlockID{}) }) {
			return
		}
		// the storage grows past the tip the chain was opened with
		x.st.push(x.right)
		for what, b := range map[string]*consensus.Block{"stored since": x.right, "on a block stored since": x.next, "wrong, on a block stored since": x.nextBad} {
			b := b
			if !call("block ("+what+")", func() { x.ch.ProcessBlock(b) }) {
				return
			}
		}
		x.st.push(x.next)
		if !call("validation after growth", func() { x.ch.Validate() }) {
			return
		}
		// storages without the blocks asked for
		for _, cut := range []int{0, 1, len(x.st.list) / 2} {
			st := newStore(x.st.list[:cut]...)
			y := chain.New(x.st.list[0], st)
			x.ch = y
			for _, o := range x.blocks {
				o := o
				if !call(fmt.Sprintf("block (%s) on %d stored", o.what, cut), func() { y.ProcessBlock(o.blk) }) {
					return
				}
			}
			if !call(fmt.Sprintf("validation of %d stored", cut), func() { y.Validate() }) {
				return
			}
		}
	}
}

func init() {
	register(&Prop{ID: "C15", Min: 2000,
		Rule:   "12 goroutines issuing random queries, lookups, header lists, validations and blocks of every outcome on one chain, lookups stretched so that calls overlap, under the race detector; every result compared with the only one possible; and the chain's lock probed after every single outcome. Distinct by operation.",
		Assume: []string{"the storage model synchronises itself, as the SQL storage does"},
		Jobs: []Job{{Name: "race", Race: true, Fn: c15stress(2, 120, false)}, {Name: "race-full", Race: true, Fn: c15stress(1, 8, true)},
			{Name: "stress", Fn: c15stress(6, 400, false)}, {Name: "stress-full", Fn: c15stress(2, 40, true)}, {Name: "outcomes", Fn: c15outcomes}}})
}
