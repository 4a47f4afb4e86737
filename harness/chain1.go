package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"github.com/dblokhin/gringo/chain"
	"github.com/dblokhin/gringo/consensus"
)

// ---- storage model ----

// memStore is a storage of one linear chain, oldest block first. Block lookups give the
// stored objects themselves, so that changes made through them show in the fingerprint.
type memStore struct {
	mu     sync.RWMutex
	list   []*consensus.Block
	byHash map[string]int
	// side holds stored blocks outside of the list: nothing follows them.
	side map[string]*consensus.Block
	// pause, if set, runs inside lookups.
	pause  func()
	writes int32
	froms  int32
}

func newStore(bs ...*consensus.Block) *memStore {
	s := &memStore{byHash: map[string]int{}}
	for _, b := range bs {
		s.push(b)
	}
	return s
}

func (s *memStore) push(b *consensus.Block) {
	s.list = append(s.list, b)
	s.byHash[string(b.Hash())] = len(s.list) - 1
}

// drop takes a block out and leaves the gap.
func (s *memStore) drop(hash []byte) {
	i := s.byHash[string(hash)]
	delete(s.byHash, string(hash))
	s.list[i] = nil
}

func (s *memStore) find(id consensus.BlockID) int {
	if s.pause != nil {
		s.pause()
	}
	if id.Hash != nil {
		i, ok := s.byHash[string(id.Hash)]
		if !ok || id.Height != nil && s.list[i].Header.Height != *id.Height {
			return -1
		}
		return i
	}
	if id.Height == nil {
		return -1
	}
	for i, b := range s.list {
		if b != nil && b.Header.Height == *id.Height {
			return i
		}
	}
	return -1
}

func (s *memStore) AddBlock(b *consensus.Block) {
	atomic.AddInt32(&s.writes, 1)
	s.mu.Lock()
	defer s.mu.Unlock()
	s.push(b)
}

func (s *memStore) DelBlock(id consensus.BlockID) {
	atomic.AddInt32(&s.writes, 1)
	s.mu.Lock()
	defer s.mu.Unlock()
	if i := s.find(id); i >= 0 {
		for _, b := range s.list[i:] {
			delete(s.byHash, string(b.Hash()))
		}
		s.list = s.list[:i]
	}
}

// cut removes the block and what follows it.
func (s *memStore) cut(h consensus.Hash) {
	s.DelBlock(consensus.BlockID{Hash: h})
	atomic.AddInt32(&s.writes, -1)
}

func (s *memStore) GetBlock(id consensus.BlockID) *consensus.Block {
	s.mu.RLock()
	defer s.mu.RUnlock()
	if b := s.sided(id); b != nil {
		return b
	}
	if i := s.find(id); i >= 0 {
		return s.list[i]
	}
	return nil
}

func (s *memStore) sided(id consensus.BlockID) *consensus.Block {
	if b := s.side[string(id.Hash)]; b != nil && (id.Height == nil || *id.Height == b.Header.Height) {
		return b
	}
	return nil
}

func (s *memStore) GetLastBlock() *consensus.Block {
	s.mu.RLock()
	defer s.mu.RUnlock()
	if len(s.list) == 0 {
		return nil
	}
	return s.list[len(s.list)-1]
}

func (s *memStore) From(id consensus.BlockID, limit int) (l consensus.BlockList) {
	atomic.AddInt32(&s.froms, 1)
	s.mu.RLock()
	defer s.mu.RUnlock()
	if b := s.sided(id); b != nil {
		if limit > 0 {
			l = append(l, *b)
		}
		return l
	}
	i := s.find(id)
	if i < 0 {
		return nil
	}
	for ; i < len(s.list) && len(l) < limit; i++ {
		if s.list[i] != nil {
			l = append(l, *s.list[i])
		}
	}
	return l
}

func blockPrint(b *consensus.Block) string {
	if b == nil {
		return "nil"
	}
	h := b.Header
	s := fmt.Sprintf("%x %d %d %d %d %d %x", h.Previous, h.Timestamp.Unix(), h.Height, h.Difficulty, h.TotalDifficulty, h.Nonce, h.Hash())
	_, body := fromBlock(b)
	return s + fmt.Sprintf("%x", body.EncAsIs())
}

func (s *memStore) print() string {
	s.mu.RLock()
	defer s.mu.RUnlock()
	var w bytes.Buffer
	for _, b := range s.list {
		w.WriteString(blockPrint(b))
		w.WriteByte('\n')
	}
	var keys []string
	for k := range s.side {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		w.WriteString(blockPrint(s.side[k]))
		w.WriteByte('\n')
	}
	return w.String()
}

// synthHdr makes a header with a proof nobody mined.
func synthHdr(r *rand.Rand, height uint64) consensus.BlockHeader {
	h := rndHdr(r)
	h.EdgeBits = 29
	for i := range h.Nonces {
		h.Nonces[i] = r.Uint32() >> 3
	}
	h.Height = height
	x := toHdr(h)
	return x
}

// synthChain makes n linked blocks from the height on.
func synthChain(r *rand.Rand, height uint64, n int) (bs []*consensus.Block) {
	t := int64(1540000000)
	td := r.Uint64() >> 20
	for i := 0; i < n; i++ {
		h := synthHdr(r, height+uint64(i))
		t += 1 + r.Int63n(120)
		td += 1 + r.Uint64()>>40
		h.Timestamp = time.Unix(t, 0).UTC()
		h.TotalDifficulty = consensus.Difficulty(td)
		h.Difficulty = consensus.Difficulty(r.Uint64() >> 40)
		if i > 0 {
			h.Previous = bs[i-1].Hash()
		}
		bs = append(bs, &consensus.Block{Header: h})
	}
	return
}

// ---- C12 ----

func c12answers(c *Ctx) {
	sizes := []int{0, 1, 2, 3, 15, 72, 511, 512, 513, 514, 515, 1026, 1100}
	for i := 0; c.More(i, 36); i++ {
		n := c.R.Intn(700)
		if i < len(sizes) {
			n = sizes[i]
		}
		start := uint64(0)
		if c.R.Intn(3) == 0 {
			start = rndU64(c.R) >> 12
		}
		bs := synthChain(c.R, start, n)
		var gen *consensus.Block
		if n > 0 && start == 0 && c.R.Intn(4) > 0 {
			gen = bs[0]
		} else {
			g := &consensus.Block{Header: synthHdr(c.R, 0)}
			gen = g
		}
		st := newStore(bs...)
		// stored blocks of branches that lead nowhere
		var leaves []consensus.Hash
		if n > 1 && i%2 == 0 {
			st.side = map[string]*consensus.Block{}
			for k := 0; k < 3; k++ {
				par := bs[c.R.Intn(n-1)]
				b := &consensus.Block{Header: synthHdr(c.R, par.Header.Height+1)}
				b.Header.Previous = par.Hash()
				st.side[string(b.Hash())] = b
				leaves = append(leaves, b.Hash())
			}
		}
		c.Case("chain of %d stored blocks from height %d", n, start)
		var ch *chain.Chain
		if p := Try(func() { ch = chain.New(gen, st) }); p != "" {
			c.Viol("new:panic", "New on a storage of %d blocks: %s", n, p)
			continue
		}
		tip := gen
		if n > 0 {
			tip = bs[n-1]
		}
		state := func(when string) {
			if ch.Height() != tip.Header.Height || ch.TotalDifficulty() != tip.Header.TotalDifficulty {
				c.Viol("start-state", "%s: a chain on %d stored blocks reports height %d and difficulty %d, its tip has %d and %d", when, n, ch.Height(), ch.TotalDifficulty(), tip.Header.Height, tip.Header.TotalDifficulty)
			}
			hd := ch.Head()
			if blockPrint(&hd) != blockPrint(tip) {
				c.Viol("start-head", "%s: a chain on %d stored blocks reports another tip", when, n)
			}
			g := ch.Genesis()
			if blockPrint(&g) != blockPrint(gen) {
				c.Viol("genesis", "%s: the chain reports another genesis block", when)
			}
		}
		state("fresh")
		before := st.print()
		var asked [][]consensus.Hash
		ask := func(hs []consensus.Hash) {
			asked = append(asked, hs)
			var want []consensus.BlockHeader
			ans := "nothing"
			cut := hs
			if len(cut) > 14 {
				cut = cut[:14]
			}
			for _, h := range cut {
				if bytes.Equal(h, tip.Hash()) {
					ans = "tip"
					break
				}
				if st.side[string(h)] != nil {
					ans = "leaf"
					break
				}
				k, ok := st.byHash[string(h)]
				if !ok {
					continue
				}
				ans = "headers"
				for k++; k < n && len(want) < 512; k++ {
					want = append(want, bs[k].Header)
				}
				break
			}
			in := append([]consensus.Hash(nil), hs...)
			var got []consensus.BlockHeader
			if p := Try(func() { got = ch.GetBlockHeaders(consensus.Locator{Hashes: in}) }); p != "" {
				c.Viol("headers:panic", "%d hashes: %s", len(hs), p)
				return
			}
			if len(got) != len(want) {
				c.Viol("headers:"+ans, "a request with %d hashes on %d blocks is answered with %d headers, not %d (%s)", len(hs), n, len(got), len(want), ans)
			} else {
				for k := range got {
					if !reflect.DeepEqual(got[k], want[k]) {
						c.Viol("headers:"+ans, "a request with %d hashes on %d blocks: header %d of the answer is the one of height %d, not %d", len(hs), n, k, got[k].Height, want[k].Height)
						break
					}
				}
			}
			for k := range in {
				if !bytes.Equal(in[k], hs[k]) {
					c.Viol("headers:modified", "the request's hashes changed")
				}
			}
			c.Count("answer_"+ans, 1)
			if len(want) == 512 {
				c.Count("full_answers", 1)
			}
			c.Eval(fmt.Sprintf("%d/%x/%x", n, tip.Hash(), hs))
		}
		unknown := func() consensus.Hash {
			x := rnd32(c.R)
			if c.R.Intn(2) == 0 { // almost a known one
				h := gen.Hash()
				switch c.R.Intn(3) {
				case 0:
					h = tip.Hash()
				case 1:
					if n > 0 {
						h = bs[c.R.Intn(n)].Hash()
					}
				}
				x = [32]byte{}
				copy(x[:], h)
				switch c.R.Intn(4) {
				case 0: // the same beginning
					for k := c.R.Intn(32); k < 32; k++ {
						x[k] ^= byte(1 + c.R.Intn(255))
					}
				case 1: // the same end
					for k := c.R.Intn(32); k >= 0; k-- {
						x[k] ^= byte(1 + c.R.Intn(255))
					}
				case 2: // a byte
					x[c.R.Intn(32)] ^= byte(1 + c.R.Intn(255))
				case 3: // reversed
					for k := range x {
						x[k] = h[31-k]
					}
				}
				c.Count("almost_known", 1)
			}
			return consensus.Hash(x[:])
		}
		pick := func() consensus.Hash {
			if n == 0 {
				return gen.Hash()
			}
			if len(leaves) > 0 && c.R.Intn(6) == 0 {
				return leaves[c.R.Intn(len(leaves))]
			}
			switch c.R.Intn(6) {
			case 0:
				return bs[n-1].Hash()
			case 1:
				return bs[0].Hash()
			case 2:
				return bs[max(0, n-1-c.R.Intn(3))].Hash()
			case 3:
				return bs[max(0, n-1-510-c.R.Intn(6))].Hash()
			}
			return bs[c.R.Intn(n)].Hash()
		}
		ask(nil)
		ask([]consensus.Hash{tip.Hash()})
		for k := 0; k < min(n, 40); k++ {
			ask([]consensus.Hash{bs[n-1-k].Hash()})
		}
		for k := 0; k < 60; k++ {
			var hs []consensus.Hash
			for u := c.R.Intn(17); u > 0; u-- { // unknown ones first
				hs = append(hs, unknown())
			}
			for m := c.R.Intn(5); m > 0; m-- {
				if c.R.Intn(4) == 0 {
					hs = append(hs, unknown())
				} else {
					hs = append(hs, pick())
				}
			}
			ask(hs)
		}
		// exactly at the considered number of hashes
		for _, u := range []int{12, 13, 14, 15} {
			var hs []consensus.Hash
			for ; u > 0; u-- {
				hs = append(hs, unknown())
			}
			ask(append(hs, pick(), pick()))
		}
		// lookups
		look := func(what string, id consensus.BlockID, want *consensus.Block) {
			var got *consensus.Block
			if p := Try(func() {
				if id.Height == nil {
					got = ch.GetBlock(id.Hash)
				} else {
					got = ch.GetBlockID(id)
				}
			}); p != "" {
				c.Viol("lookup:panic", "%s: %s", what, p)
				return
			}
			if (got == nil) != (want == nil) || got != nil && blockPrint(got) != blockPrint(want) {
				c.Viol("lookup", "lookup (%s) on %d blocks: found=%v, stored=%v", what, n, got != nil, want != nil)
			}
			c.Eval(fmt.Sprintf("look%x%v", id.Hash, id.Height))
			c.Count("lookups", 1)
		}
		if _, ok := st.byHash[string(gen.Hash())]; !ok {
			look("genesis that isn't stored", consensus.BlockID{Hash: gen.Hash()}, nil)
			c.Count("genesis_not_stored", 1)
		}
		for k := 0; k < 25; k++ {
			look("unknown hash", consensus.BlockID{Hash: unknown()}, nil)
			look("no hash", consensus.BlockID{}, nil)
			if len(leaves) > 0 {
				b := st.side[string(leaves[c.R.Intn(len(leaves))])]
				look("hash of a branch", consensus.BlockID{Hash: b.Hash()}, b)
			}
			if n > 0 {
				b := bs[c.R.Intn(n)]
				h := b.Header.Height
				h1 := h + 1
				look("hash", consensus.BlockID{Hash: b.Hash()}, b)
				look("height", consensus.BlockID{Height: &h}, b)
				look("hash and height", consensus.BlockID{Hash: b.Hash(), Height: &h}, b)
				look("hash and other height", consensus.BlockID{Hash: b.Hash(), Height: &h1}, nil)
				far := start + uint64(n)
				look("height above the tip", consensus.BlockID{Height: &far}, nil)
			}
		}
		state("after the queries")
		if st.print() != before {
			c.Viol("storage", "queries changed the stored blocks")
		}
		// a block stored while the chain is open: nothing follows it
		if n > 0 {
			b := &consensus.Block{Header: synthHdr(c.R, tip.Header.Height+1)}
			b.Header.Previous = tip.Hash()
			st.push(b)
			for k := 0; k < 5; k++ {
				ask([]consensus.Hash{unknown(), b.Hash(), bs[c.R.Intn(n)].Hash(), pick()})
			}
			look("hash of a block stored later", consensus.BlockID{Hash: b.Hash()}, b)
			c.Count("stored_later", 1)
			st.cut(b.Hash())
		}
		// the same requests again while the stored chain grows, and is replaced from some block on;
		// what the chain was opened with isn't asked for, whether it still is the tip isn't said
		var again [][]consensus.Hash
		for _, hs := range asked {
			ok := len(hs) > 0
			for _, h := range hs {
				ok = ok && !bytes.Equal(h, tip.Hash())
			}
			if ok {
				again = append(again, hs)
			}
		}
		for k := 0; k < 5 && n > 0; k++ {
			var last []consensus.Hash
			if len(again) > 0 {
				last = again[c.R.Intn(len(again))]
			}
			if c.R.Intn(2) == 0 {
				last = []consensus.Hash{bs[c.R.Intn(len(bs))].Hash()}
			}
			if len(last) > 0 && !bytes.Equal(last[0], tip.Hash()) {
				ask(last)
			} else {
				last = nil
			}
			top := bs[len(bs)-1].Header
			if k%2 == 1 {
				at := c.R.Intn(len(bs))
				if c.R.Intn(2) == 0 {
					at = max(0, len(bs)-1-c.R.Intn(4))
				}
				gone := bs[at+c.R.Intn(len(bs)-at)]
				look("hash before its removal", consensus.BlockID{Hash: gone.Hash()}, gone)
				st.cut(bs[at].Hash())
				if !bytes.Equal(gone.Hash(), tip.Hash()) {
					look("hash after its removal", consensus.BlockID{Hash: gone.Hash()}, nil)
				}
				top = bs[at].Header
				top.Height--
				bs = bs[:at:at]
			}
			more := synthChain(c.R, top.Height+1, 1+c.R.Intn(20))
			for _, b := range more {
				st.push(b)
			}
			bs = append(bs[:len(bs):len(bs)], more...)
			n = len(bs)
			if last != nil {
				ask(last)
				again = append(again, last)
			}
			for q := 0; q < 15 && len(again) > 0; q++ {
				hs := again[c.R.Intn(len(again))]
				ask(hs)
				if q%3 == 0 {
					ask(hs)
				}
				if h := bs[c.R.Intn(n)].Hash(); !bytes.Equal(h, tip.Hash()) {
					ask([]consensus.Hash{h})
				}
			}
			b := bs[c.R.Intn(n)]
			look("hash after a change", consensus.BlockID{Hash: b.Hash()}, b)
			c.Count("storage_changes", 1)
		}
	}
}

func init() {
	register(&Prop{ID: "C12", Min: 2000,
		Rule:   "synthetic stored chains of 0 to 1100 blocks (with the sizes around the 512-header limit), genesis stored or not, branches that lead nowhere, locators of 0 to 21 known, unknown, almost known, repeated, branch and tip hashes; answers compared field by field with a walk of the stored list; storage fingerprinted. Distinct by chain and locator.",
		Assume: []string{"storage behaves as its interface documents (a linear model is used)"},
		Jobs:   []Job{{Name: "answers", Fn: c12answers}}})
}
