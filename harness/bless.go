package main

import (
	"math/rand"
	"runtime"
	"sort"
	"strings"
	"sync"

	"github.com/dblokhin/gringo/cuckoo"

	"verif/ref"
)

// Headers nobody mined: the build tag verif makes the verifier ask for proofs that are to
// count as valid. A proof is blessed for one header, by the siphash keys the harness's own
// encoding of that header gives; every other proof takes the verifier's own way.

var blessed sync.Map

func blessKey(v [4]uint64, nonces []uint32, bits uint8) string {
	b := make([]byte, 0, 33+4*len(nonces))
	for _, x := range v {
		for s := uint(0); s < 64; s += 8 {
			b = append(b, byte(x>>s))
		}
	}
	b = append(b, bits)
	for _, n := range nonces {
		b = append(b, byte(n), byte(n>>8), byte(n>>16), byte(n>>24))
	}
	return string(b)
}

func init() {
	cuckoo.VerifAccepts = func(v [4]uint64, nonces []uint32, bits uint8) bool {
		_, ok := blessed.Load(blessKey(v, nonces, bits))
		return ok
	}
}

// bless makes the header's proof count as valid for it.
func bless(h ref.Hdr) ref.Hdr {
	blessed.Store(blessKey(ref.KeysOf(h.EncNoPow()), h.Nonces, h.EdgeBits), true)
	return h
}

func isBlessed(h ref.Hdr) bool {
	_, ok := blessed.Load(blessKey(ref.KeysOf(h.EncNoPow()), h.Nonces, h.EdgeBits))
	return ok
}

// hooked tells whether the hook is in place; without it blessed headers are not judged.
func hooked(c *Ctx) bool {
	h := newHdr(c.R)
	if cuckoo.NewFromKeys(ref.KeysOf(h.EncNoPow())).Verify(h.Nonces, h.EdgeBits) {
		c.Fail("a proof counts as valid that nobody mined or blessed")
		return false
	}
	bless(h)
	if !cuckoo.NewFromKeys(ref.KeysOf(h.EncNoPow())).Verify(h.Nonces, h.EdgeBits) {
		c.Count("hook_not_in_place", 1)
		return false
	}
	return true
}

func ascNonces(r *rand.Rand, bits uint8, n int) []uint32 {
	lim := int64(1) << 32
	if bits < 32 {
		lim = 1 << bits
	}
	if lim < 4096 {
		l := make([]uint32, n)
		for i, x := range r.Perm(max(int(lim), n))[:n] {
			l[i] = uint32(x)
		}
		return sortU32(l)
	}
	for {
		l := make([]uint32, n)
		for i := range l {
			l[i] = uint32(r.Int63n(lim))
		}
		if l = uniqU32(sortU32(l)); len(l) == n {
			return l
		}
	}
}

// newHdr makes a header that satisfies every rule once blessed.
func newHdr(r *rand.Rand) ref.Hdr {
	h := rndHdr(r)
	h.Height = anyHeight(r)
	h.Version = versionAt(h.Height)
	h.TS = 1540000000 + r.Int63n(100000000)
	h.EdgeBits = []uint8{29, 29, 30, 31, 32}[r.Intn(5)]
	if h.EdgeBits != 29 {
		h.Scaling = 1
	}
	h.Nonces = ascNonces(r, h.EdgeBits, 42)
	return h
}

func versionAt(height uint64) uint16 {
	switch {
	case height < 95000:
		return 1
	case height < 250000:
		return 2
	}
	return 3
}

// anyHeight gives a height some version is scheduled for.
func anyHeight(r *rand.Rand) uint64 {
	switch r.Intn(5) {
	case 0:
		return uint64(r.Intn(100))
	case 1:
		b := []uint64{95000, 250000, 499998}[r.Intn(3)]
		return b + uint64(r.Intn(5)) - 3
	}
	return uint64(r.Intn(500000))
}

// proofT is a proof of known difficulty.
type proofT struct {
	bits   uint8
	nonces []uint32
	diff   uint64
}

// proofSet holds proofs by difficulty. Half of all proofs have difficulty 0.
type proofSet struct{ l []proofT }

var proofOnce sync.Once
var proofAll proofSet

func proofPool(c *Ctx) *proofSet {
	proofOnce.Do(func() {
		var mu sync.Mutex
		var wg sync.WaitGroup
		for w := 0; w < runtime.GOMAXPROCS(0); w++ {
			wg.Add(1)
			go func(r *rand.Rand) {
				defer wg.Done()
				var mine []proofT
				zero := 0
				for i := 0; i < 80000; i++ {
					h := ref.Hdr{EdgeBits: []uint8{29, 29, 29, 30, 31}[r.Intn(5)]}
					h.Nonces = ascNonces(r, h.EdgeBits, 42)
					d := h.PowDifficulty()
					if d == 0 {
						if zero++; zero > 200 {
							continue
						}
					}
					mine = append(mine, proofT{h.EdgeBits, h.Nonces, d})
				}
				mu.Lock()
				proofAll.l = append(proofAll.l, mine...)
				mu.Unlock()
			}(subRand(c.R))
		}
		wg.Wait()
		sort.Slice(proofAll.l, func(i, j int) bool {
			a, b := proofAll.l[i], proofAll.l[j]
			if a.diff != b.diff {
				return a.diff < b.diff
			}
			return strings.Compare(blessKey([4]uint64{}, a.nonces, a.bits), blessKey([4]uint64{}, b.nonces, b.bits)) < 0
		})
	})
	return &proofAll
}

// pick gives a proof with lo <= difficulty <= hi that is not in used, and marks it there.
func (p *proofSet) pick(r *rand.Rand, lo, hi uint64, used map[*uint32]bool) (proofT, bool) {
	a := sort.Search(len(p.l), func(i int) bool { return p.l[i].diff >= lo })
	b := sort.Search(len(p.l), func(i int) bool { return p.l[i].diff > hi })
	if a >= b {
		return proofT{}, false
	}
	k := a + r.Intn(b-a)
	for i := 0; i < b-a; i++ {
		q := p.l[a+(k-a+i)%(b-a)]
		if !used[&q.nonces[0]] {
			used[&q.nonces[0]] = true
			return q, true
		}
	}
	return proofT{}, false
}
