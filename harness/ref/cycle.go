package ref

import (
	"encoding/binary"
	"math/big"
	"sort"

	"golang.org/x/crypto/blake2b"
)

// KeysOf derives the SipHash state from a header.
func KeysOf(header []byte) (k [4]uint64) {
	s := blake2b.Sum256(header)
	for i := range k {
		k[i] = binary.LittleEndian.Uint64(s[8*i:])
	}
	return
}

type Edge struct{ U, V uint64 }

func CuckarooEdge(k [4]uint64, nonce uint32, edgeBits uint8) Edge {
	mask := uint64(1)<<edgeBits - 1
	e := SipBlock(k, uint64(nonce))
	return Edge{e & mask, e >> 32 & mask}
}

// CuckooEdge for a graph of 2^sizeShift vertices.
func CuckooEdge(k [4]uint64, nonce uint32, sizeShift uint8) Edge {
	mask := uint64(1)<<sizeShift/2 - 1
	return Edge{Sip24(k, 2*uint64(nonce)) & mask << 1, Sip24(k, 2*uint64(nonce)+1)&mask<<1 | 1}
}

// OneCycle: the edges form one simple cycle through all of them.
func OneCycle(es []Edge) bool {
	if len(es) == 0 {
		return false
	}
	type vert struct {
		side int
		id   uint64
	}
	inc := map[vert][]int{}
	for i, e := range es {
		inc[vert{0, e.U}] = append(inc[vert{0, e.U}], i)
		inc[vert{1, e.V}] = append(inc[vert{1, e.V}], i)
	}
	for _, x := range inc {
		if len(x) != 2 {
			return false
		}
	}
	// union of edges by shared vertices must be connected
	par := make([]int, len(es))
	for i := range par {
		par[i] = i
	}
	var find func(int) int
	find = func(i int) int {
		if par[i] != i {
			par[i] = find(par[i])
		}
		return par[i]
	}
	for _, x := range inc {
		par[find(x[0])] = find(x[1])
	}
	for i := range par {
		if find(i) != find(0) {
			return false
		}
	}
	return true
}

func ascending(n []uint32) bool {
	for i := 1; i < len(n); i++ {
		if n[i] <= n[i-1] {
			return false
		}
	}
	return true
}

func CuckarooOK(k [4]uint64, nonces []uint32, edgeBits uint8) bool {
	if len(nonces) == 0 || !ascending(nonces) {
		return false
	}
	es := make([]Edge, len(nonces))
	for i, n := range nonces {
		if edgeBits < 32 && n >= 1<<edgeBits {
			return false
		}
		es[i] = CuckarooEdge(k, n, edgeBits)
	}
	return OneCycle(es)
}

func CuckooOK(k [4]uint64, nonces []uint32, sizeShift uint8, ease uint64) bool {
	if len(nonces) == 0 || !ascending(nonces) {
		return false
	}
	lim := ease * (uint64(1) << sizeShift) / 100
	es := make([]Edge, len(nonces))
	for i, n := range nonces {
		if uint64(n) >= lim {
			return false
		}
		es[i] = CuckooEdge(k, n, sizeShift)
	}
	return OneCycle(es)
}

// Retarget returns the difficulties the rule allows for history (newest first): one
// value, or two when the damped window has a fractional second (rounding of it is not
// part of the rule).
func Retarget(ts []int64, diff []uint64) []uint64 {
	if len(ts) == 0 {
		return []uint64{0}
	}
	if len(ts) < 71 {
		return []uint64{1}
	}
	med := func(x []int64) int64 {
		x = append([]int64(nil), x...)
		sort.Slice(x, func(i, j int) bool { return x[i] < x[j] })
		return x[5]
	}
	// begin and end may be further apart than 64 bits tell
	obs := new(big.Int).Sub(big.NewInt(med(ts[:11])), big.NewInt(med(ts[60:71])))
	sum := new(big.Int)
	for _, d := range diff[:60] {
		sum.Add(sum, new(big.Int).SetUint64(d))
	}
	avg := sum.Div(sum, big.NewInt(60))
	num := obs.Add(obs, big.NewInt(3*3600)) // four times the damped window
	one := func(n *big.Int) uint64 {        // n = 4 * window
		if n.Cmp(big.NewInt(4*1800)) < 0 {
			n = big.NewInt(4 * 1800)
		}
		if n.Cmp(big.NewInt(4*7200)) > 0 {
			n = big.NewInt(4 * 7200)
		}
		d := new(big.Int).Mul(avg, big.NewInt(3600*4))
		if d.Div(d, n).Sign() == 0 {
			return 1
		}
		return d.Uint64()
	}
	fl := new(big.Int).Quo(num, big.NewInt(4))
	r := []uint64{one(fl.Mul(fl, big.NewInt(4)))}
	if e := one(num); e != r[0] {
		r = append(r, e)
	}
	return r
}
