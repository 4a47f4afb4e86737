package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"sort"
	"sync"
	"time"

	"github.com/dblokhin/gringo/consensus"
	"github.com/dblokhin/gringo/secp256k1zkp"
	"github.com/yoss22/bulletproofs"

	"verif/ref"
)

// curve points k*G for a spread of k, computed once
var ptOnce sync.Once
var ptPool []ref.Pt
var ptKeys []*big.Int

func points() []ref.Pt {
	ptOnce.Do(func() {
		r := rand.New(rand.NewSource(7))
		k := new(big.Int).Rand(r, ref.N)
		p := ref.Mul(ref.G(), k)
		step := new(big.Int).Rand(r, ref.N)
		sp := ref.Mul(ref.G(), step)
		for i := 0; i < 400; i++ {
			ptPool = append(ptPool, p)
			ptKeys = append(ptKeys, new(big.Int).Set(k))
			p = ref.Add(p, sp)
			k.Add(k, step)
			k.Mod(k, ref.N)
		}
	})
	return ptPool
}

func rndPt(r *rand.Rand) ref.Pt {
	ps := points()
	p := ps[r.Intn(len(ps))]
	if r.Intn(2) == 0 {
		return ref.Neg(p)
	}
	return p
}

func rnd32(r *rand.Rand) (h [32]byte) {
	switch r.Intn(12) {
	case 0:
	case 1:
		for i := range h {
			h[i] = 0xff
		}
	default:
		r.Read(h[:])
	}
	return
}

func rndU64(r *rand.Rand) uint64 {
	switch r.Intn(8) {
	case 0:
		return 0
	case 1:
		return math.MaxUint64
	case 2:
		return uint64(r.Intn(300))
	case 3:
		return 1 << uint(r.Intn(64))
	case 4:
		return uint64(math.MaxInt64) + uint64(r.Intn(3))
	}
	return r.Uint64()
}

func rndTS(r *rand.Rand) int64 {
	switch r.Intn(8) {
	case 0:
		return 0
	case 1:
		return -int64(r.Intn(1 << 30))
	case 2:
		return int64(r.Intn(1 << 40))
	case 3:
		return 253402300800 - int64(r.Intn(3)) // the year 10000
	}
	return 1540000000 + int64(r.Intn(1<<27))
}

func rndNonces(r *rand.Rand, eb uint8) []uint32 {
	n := make([]uint32, ref.ProofSize)
	mode := r.Intn(4)
	for i := range n {
		v := r.Uint32()
		switch mode {
		case 0:
			v = math.MaxUint32
		case 1:
			if r.Intn(2) == 0 {
				v = 0
			}
		}
		if eb < 32 {
			v &= 1<<eb - 1
		}
		n[i] = v
	}
	return n
}

func rndHdr(r *rand.Rand) ref.Hdr {
	eb := uint8(1 + r.Intn(64))
	if r.Intn(2) == 0 {
		eb = []uint8{29, 30, 31, 32}[r.Intn(4)]
	}
	h := ref.Hdr{Version: uint16(rndU64(r)), Height: rndU64(r), TS: rndTS(r), Prev: rnd32(r), PrevRoot: rnd32(r), UTXO: rnd32(r),
		RProof: rnd32(r), Kern: rnd32(r), Offset: rnd32(r), OutMmr: rndU64(r), KerMmr: rndU64(r), TD: rndU64(r),
		Scaling: uint32(rndU64(r)), Nonce: rndU64(r), EdgeBits: eb, Nonces: rndNonces(r, eb)}
	return h
}

func rndIn(r *rand.Rand) (x ref.In) {
	x.Feat = uint8(r.Intn(4))
	if r.Intn(10) == 0 {
		x.Feat = uint8(r.Intn(256))
	}
	x.Commit = ref.Commit33(rndPt(r))
	if r.Intn(10) == 0 { // inputs are not decompressed: any 33 bytes travel
		r.Read(x.Commit[:])
	}
	return
}

// rndProof is any byte string with the layout of a range proof (padding bits clear).
func rndProof(r *rand.Rand) []byte {
	b := make([]byte, ref.RangeProofLen)
	r.Read(b)
	b[64] &= 0x0f
	const lr = 32*2 + (1 + 4*32) + 32 + 4*32
	b[lr+1] &= 0x03
	return b
}

func rndOut(r *rand.Rand) (x ref.Out) {
	x.Feat = uint8(r.Intn(3))
	if r.Intn(10) == 0 {
		x.Feat = uint8(r.Intn(256))
	}
	x.Commit = ref.Commit33(rndPt(r))
	x.Proof = rndProof(r)
	return
}

func rndKer(r *rand.Rand) (x ref.Ker) {
	x.Feat = uint8(r.Intn(3))
	if r.Intn(10) == 0 {
		x.Feat = uint8(r.Intn(256))
	}
	x.Fee, x.Lock = rndU64(r), rndU64(r)
	x.Excess = ref.Commit33(rndPt(r))
	r.Read(x.Sig[:])
	return
}

func rndLen(r *rand.Rand) int {
	switch r.Intn(12) {
	case 0, 1:
		return 0
	case 2, 3:
		return 1
	case 4:
		return 20 + r.Intn(100)
	}
	return r.Intn(9)
}

func rndBody(r *rand.Rand) (b ref.Body) {
	for i := rndLen(r); i > 0; i-- {
		b.Ins = append(b.Ins, rndIn(r))
	}
	for i := rndLen(r); i > 0; i-- {
		b.Outs = append(b.Outs, rndOut(r))
	}
	for i := rndLen(r); i > 0; i-- {
		b.Kers = append(b.Kers, rndKer(r))
	}
	// items whose hashes agree in their first bytes
	if r.Intn(4) == 0 {
		near := nearPairs()
		for k := 1 + r.Intn(3); k > 0; k-- {
			switch r.Intn(3) {
			case 0:
				p := near.ins[r.Intn(len(near.ins))]
				b.Ins = append(b.Ins, p[0], p[1])
			case 1:
				p := near.outs[r.Intn(len(near.outs))]
				b.Outs = append(b.Outs, p[0], p[1])
			default:
				p := near.kers[r.Intn(len(near.kers))]
				b.Kers = append(b.Kers, p[0], p[1])
			}
		}
	}
	// twins: items that differ only where it is easy to forget to look
	if r.Intn(4) == 0 && len(b.Ins) > 0 {
		x := b.Ins[0]
		x.Feat ^= 1
		b.Ins = append(b.Ins, x)
	}
	if r.Intn(4) == 0 && len(b.Outs) > 0 {
		x := b.Outs[0]
		x.Feat ^= 1
		b.Outs = append(b.Outs, x)
	}
	b.Outs = uniqueOuts(b.Outs)
	if r.Intn(4) == 0 && len(b.Kers) > 0 {
		x := b.Kers[0]
		x.Lock++
		b.Kers = append(b.Kers, x)
	}
	return
}

type pairs struct {
	ins  [][2]ref.In
	outs [][2]ref.Out
	kers [][2]ref.Ker
}

var (
	nearOnce sync.Once
	nearVal  pairs
)

// near finds pairs of indices whose hashes agree in 2, 3 or (some) more leading bytes
func near(n int, hash func(i int) []byte) (l [][2]int) {
	type e struct {
		h [12]byte
		i int
	}
	es := make([]e, n)
	for i := range es {
		copy(es[i].h[:], hash(i))
		es[i].i = i
	}
	sort.Slice(es, func(a, b int) bool { return bytes.Compare(es[a].h[:], es[b].h[:]) < 0 })
	have := map[int]int{}
	for i := 0; i+1 < n; i++ {
		k := 0
		for k < 12 && es[i].h[k] == es[i+1].h[k] {
			k++
		}
		if k >= 2 && k < 12 && have[k] < 40 {
			have[k]++
			l = append(l, [2]int{es[i].i, es[i+1].i})
		}
	}
	return
}

// nearPairs are items whose hashes differ late only, up to their fifth byte
func nearPairs() *pairs {
	nearOnce.Do(func() {
		r := rand.New(rand.NewSource(1))
		ps := points()
		proofs := [][]byte{rndProof(r), rndProof(r)}
		in := func(i int) (x ref.In) {
			binary.BigEndian.PutUint32(x.Commit[9:], uint32(i))
			x.Commit[0], x.Feat = 8+uint8(i&1), uint8(i>>1&1)
			return
		}
		var comm [][33]byte
		for k := 0; k < len(ps) && k < 500; k++ {
			comm = append(comm, ref.Commit33(ps[k]), ref.Commit33(ref.Neg(ps[k])))
		}
		out := func(i int) ref.Out {
			return ref.Out{Feat: uint8(i / len(comm)), Commit: comm[i%len(comm)], Proof: proofs[i&1]}
		}
		base := rndKer(r)
		ker := func(i int) ref.Ker {
			k := base
			k.Fee = uint64(i)
			return k
		}
		for _, p := range near(1<<18, func(i int) []byte { return in(i).Hash() }) {
			nearVal.ins = append(nearVal.ins, [2]ref.In{in(p[0]), in(p[1])})
		}
		for _, p := range near(256*len(comm), func(i int) []byte { return out(i).Hash() }) {
			nearVal.outs = append(nearVal.outs, [2]ref.Out{out(p[0]), out(p[1])})
		}
		for _, p := range near(1<<18, func(i int) []byte { return ker(i).Hash() }) {
			nearVal.kers = append(nearVal.kers, [2]ref.Ker{ker(p[0]), ker(p[1])})
		}
	})
	return &nearVal
}

// uniqueOuts drops outputs with the hash of an earlier one: their order is not defined.
func uniqueOuts(os []ref.Out) (l []ref.Out) {
	seen := map[string]bool{}
	for _, o := range os {
		if k := string(o.Head()); !seen[k] {
			seen[k] = true
			l = append(l, o)
		}
	}
	return
}

func rndCompact(r *rand.Rand) (c ref.Compact) {
	c.H = rndHdr(r)
	for i := rndLen(r); i > 0; i-- {
		c.Outs = append(c.Outs, rndOut(r))
	}
	c.Outs = uniqueOuts(c.Outs)
	for i := rndLen(r); i > 0; i-- {
		c.Kers = append(c.Kers, rndKer(r))
	}
	for i := rndLen(r) * 3; i > 0; i-- {
		var id [6]byte
		r.Read(id[:])
		if r.Intn(2) == 0 { // share a prefix
			copy(id[:1+r.Intn(5)], "\x80\x00\xff\x00\x01")
		}
		c.IDs = append(c.IDs, id)
	}
	return
}

func rndAddr(r *rand.Rand) ref.Addr {
	a := ref.Addr{Port: uint16(r.Intn(1 << 16))}
	if r.Intn(2) == 0 {
		a.IP = make([]byte, 4)
		r.Read(a.IP)
	} else {
		a.IP = make([]byte, 16)
		r.Read(a.IP)
		a.IP[0] = 0x20 // never the v4-mapped range
	}
	return a
}

func rndUA(r *rand.Rand) string {
	switch r.Intn(5) {
	case 0:
		return ""
	case 1:
		n := 1 + r.Intn(3000)
		if r.Intn(4) == 0 {
			n = []int{255, 256, 257, 4096, 10000, 65535, 65536, 65537, 99999, 100000}[r.Intn(10)]
		}
		return string(bytes.Repeat([]byte("x"), n))
	case 2:
		b := make([]byte, r.Intn(60))
		r.Read(b)
		return string(b)
	}
	return fmt.Sprintf("MW/Grin %d.%d", r.Intn(10), r.Intn(10))
}

// ---- to and from the repository's types ----

func bp(p ref.Pt) *bulletproofs.Point {
	return &bulletproofs.Point{X: new(big.Int).Set(p.X), Y: new(big.Int).Set(p.Y)}
}

func toHdr(h ref.Hdr) consensus.BlockHeader {
	cl := func(b [32]byte) consensus.Hash { return append(consensus.Hash(nil), b[:]...) }
	return consensus.BlockHeader{Version: h.Version, Height: h.Height, Timestamp: time.Unix(h.TS, 0).UTC(), Previous: cl(h.Prev),
		PreviousRoot: cl(h.PrevRoot), UTXORoot: cl(h.UTXO), RangeProofRoot: cl(h.RProof), KernelRoot: cl(h.Kern),
		TotalKernelOffset: cl(h.Offset), OutputMmrSize: h.OutMmr, KernelMmrSize: h.KerMmr,
		TotalDifficulty: consensus.Difficulty(h.TD), ScalingDifficulty: h.Scaling, Nonce: h.Nonce,
		POW: consensus.Proof{EdgeBits: h.EdgeBits, Nonces: append([]uint32(nil), h.Nonces...)}}
}

func fromHdr(h *consensus.BlockHeader) (x ref.Hdr) {
	x = ref.Hdr{Version: h.Version, Height: h.Height, TS: h.Timestamp.Unix(), OutMmr: h.OutputMmrSize, KerMmr: h.KernelMmrSize,
		TD: uint64(h.TotalDifficulty), Scaling: h.ScalingDifficulty, Nonce: h.Nonce, EdgeBits: h.POW.EdgeBits,
		Nonces: append([]uint32(nil), h.POW.Nonces...)}
	copy(x.Prev[:], h.Previous)
	copy(x.PrevRoot[:], h.PreviousRoot)
	copy(x.UTXO[:], h.UTXORoot)
	copy(x.RProof[:], h.RangeProofRoot)
	copy(x.Kern[:], h.KernelRoot)
	copy(x.Offset[:], h.TotalKernelOffset)
	return
}

func toIn(x ref.In) consensus.Input {
	return consensus.Input{Features: consensus.OutputFeatures(x.Feat), Commit: append(secp256k1zkp.Commitment(nil), x.Commit[:]...)}
}
func toOut(x ref.Out) consensus.Output {
	p, ok := ref.UnCommit33(x.Commit)
	if !ok {
		panic("toOut: not a curve point")
	}
	o := consensus.Output{Features: consensus.OutputFeatures(x.Feat), Commit: bp(p)}
	if err := o.RangeProof.Read(bytes.NewReader(x.Proof)); err != nil {
		panic(err)
	}
	return o
}
func toKer(x ref.Ker) consensus.TxKernel {
	p, ok := ref.UnCommit33(x.Excess)
	if !ok {
		panic("toKer: not a curve point")
	}
	return consensus.TxKernel{Features: consensus.KernelFeatures(x.Feat), Fee: x.Fee, LockHeight: x.Lock, Excess: *bp(p), ExcessSig: x.Sig}
}
func toIns(xs []ref.In) (l consensus.InputList) {
	for _, x := range xs {
		l = append(l, toIn(x))
	}
	return
}
func toOuts(xs []ref.Out) (l consensus.OutputList) {
	for _, x := range xs {
		l = append(l, toOut(x))
	}
	return
}
func toKers(xs []ref.Ker) (l consensus.TxKernelList) {
	for _, x := range xs {
		l = append(l, toKer(x))
	}
	return
}
func toBlock(h ref.Hdr, b ref.Body) *consensus.Block {
	return &consensus.Block{Header: toHdr(h), Inputs: toIns(b.Ins), Outputs: toOuts(b.Outs), Kernels: toKers(b.Kers)}
}
func toTx(off [32]byte, b ref.Body) *consensus.Transaction {
	return &consensus.Transaction{KernelOffset: off, Inputs: toIns(b.Ins), Outputs: toOuts(b.Outs), Kernels: toKers(b.Kers)}
}
func toCompact(c ref.Compact) *consensus.CompactBlock {
	x := &consensus.CompactBlock{Header: toHdr(c.H), Outputs: toOuts(c.Outs), Kernels: toKers(c.Kers)}
	for _, id := range c.IDs {
		x.KernelIDs = append(x.KernelIDs, append(consensus.ShortID(nil), id[:]...))
	}
	return x
}

// fromX read the fields of a decoded object one by one (points through the
// coordinates, not through the code's own encoder).
func fromPt(p *bulletproofs.Point) (b [33]byte) {
	b[0] = 9
	if big.Jacobi(p.Y, ref.P) == 1 {
		b[0] = 8
	}
	p.X.FillBytes(b[1:])
	return
}
func fromIns(l consensus.InputList) (xs []ref.In) {
	for _, i := range l {
		x := ref.In{Feat: uint8(i.Features)}
		copy(x.Commit[:], i.Commit)
		xs = append(xs, x)
	}
	return
}
func fromOuts(l consensus.OutputList) (xs []ref.Out) {
	for _, o := range l {
		p := o.RangeProof
		xs = append(xs, ref.Out{Feat: uint8(o.Features), Commit: fromPt(o.Commit), Proof: p.Bytes()})
	}
	return
}
func fromKers(l consensus.TxKernelList) (xs []ref.Ker) {
	for i := range l {
		k := &l[i]
		xs = append(xs, ref.Ker{Feat: uint8(k.Features), Fee: k.Fee, Lock: k.LockHeight, Excess: fromPt(&k.Excess), Sig: k.ExcessSig})
	}
	return
}
func fromBlock(b *consensus.Block) (ref.Hdr, ref.Body) {
	return fromHdr(&b.Header), ref.Body{Ins: fromIns(b.Inputs), Outs: fromOuts(b.Outputs), Kers: fromKers(b.Kernels)}
}
func fromTx(t *consensus.Transaction) ([32]byte, ref.Body) {
	return t.KernelOffset, ref.Body{Ins: fromIns(t.Inputs), Outs: fromOuts(t.Outputs), Kers: fromKers(t.Kernels)}
}
func fromCompact(b *consensus.CompactBlock) (c ref.Compact) {
	c = ref.Compact{H: fromHdr(&b.Header), Outs: fromOuts(b.Outputs), Kers: fromKers(b.Kernels)}
	for _, id := range b.KernelIDs {
		var x [6]byte
		copy(x[:], id)
		c.IDs = append(c.IDs, x)
	}
	return
}

func shuffleBody(r *rand.Rand, b ref.Body) ref.Body {
	c := ref.Body{Ins: append([]ref.In(nil), b.Ins...), Outs: append([]ref.Out(nil), b.Outs...), Kers: append([]ref.Ker(nil), b.Kers...)}
	r.Shuffle(len(c.Ins), func(i, j int) { c.Ins[i], c.Ins[j] = c.Ins[j], c.Ins[i] })
	r.Shuffle(len(c.Outs), func(i, j int) { c.Outs[i], c.Outs[j] = c.Outs[j], c.Outs[i] })
	r.Shuffle(len(c.Kers), func(i, j int) { c.Kers[i], c.Kers[j] = c.Kers[j], c.Kers[i] })
	return c
}

// bigBody is a body of many items with its canonical encoding.
type bigBody struct {
	what string
	body ref.Body
	enc  []byte
}

// bigBodies makes bodies of the numbers of inputs, outputs and kernels given.
func bigBodies(r *rand.Rand, sizes ...[3]int) (l []bigBody) {
	for _, s := range sizes {
		var b ref.Body
		for i := 0; i < s[0]; i++ {
			x := ref.In{Feat: uint8(r.Intn(2))}
			r.Read(x.Commit[:])
			x.Commit[0] = 8 | x.Commit[0]&1
			b.Ins = append(b.Ins, x)
		}
		for i := 0; i < s[1]; i++ {
			b.Outs = append(b.Outs, rndOut(r))
		}
		b.Outs = uniqueOuts(b.Outs)
		for i := 0; i < s[2]; i++ {
			b.Kers = append(b.Kers, rndKer(r))
		}
		b = b.Sorted()
		l = append(l, bigBody{fmt.Sprintf("%d/%d/%d", len(b.Ins), len(b.Outs), len(b.Kers)), b, b.EncAsIs()})
	}
	return
}

// block makes the frame and the object of a block with the body.
func (x bigBody) block(h ref.Hdr) (frame []byte, b *consensus.Block) {
	return ref.Frame(ref.TBlock, append(h.Enc(), x.enc...)), toBlock(h, x.body)
}
