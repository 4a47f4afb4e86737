package main

import (
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"sort"
	"sync"
	"time"

	"github.com/dblokhin/gringo/consensus"
	"github.com/dblokhin/gringo/secp256k1zkp"
	"github.com/yoss22/bulletproofs"

	"verif/ref"
)

func rndScalar(r *rand.Rand) *big.Int {
	switch r.Intn(8) {
	case 0:
		return big.NewInt(int64(1 + r.Intn(20)))
	case 1:
		return new(big.Int).Sub(ref.N, big.NewInt(int64(1+r.Intn(20))))
	case 2:
		return new(big.Int).Lsh(big.NewInt(1), uint(r.Intn(255)))
	}
	k := new(big.Int).Rand(r, new(big.Int).Sub(ref.N, big.NewInt(1)))
	return k.Add(k, big.NewInt(1))
}

// ---- C09 ----

func c09sign(c *Ctx) {
	for i := 0; c.More(i, 500); i++ {
		x := rndScalar(c.R)
		pub := ref.Mul(ref.G(), x)
		var msg [32]byte
		if c.R.Intn(2) == 0 {
			msg = ref.KernelMsg(rndU64(c.R), rndU64(c.R))
		} else {
			c.R.Read(msg[:])
		}
		c.Case("key %v message %x", x, msg)
		var sig secp256k1zkp.Signature
		if p := Try(func() { sig = secp256k1zkp.SignMessage(*bp(pub), *new(big.Int).Set(x), msg) }); p != "" {
			c.Viol("sign-panic", "key %v message %x: %s", x, msg, p)
			continue
		}
		if !secp256k1zkp.VerifySignature(*bp(pub), msg, sig) {
			c.Viol("own-signature", "signature under key %v of %x does not verify", x, msg)
		}
		b := sig.Bytes()
		dec := secp256k1zkp.DecodeSignature(b)
		if !secp256k1zkp.VerifySignature(*bp(pub), msg, dec) {
			c.Viol("own-signature-decoded", "signature %x under key %v of %x does not verify after decoding", b, x, msg)
		}
		if dec.Bytes() != b {
			c.Viol("signature-bytes", "decoding and encoding signature %x gives %x", b, dec.Bytes())
		}
		if !ref.Verify(pub, msg, b) {
			c.Viol("own-signature-independent", "signature %x under key %v of %x is refused by an independent verifier", b, x, msg)
		}
		// not for another message or key
		m2 := msg
		m2[c.R.Intn(32)] ^= 1 << uint(c.R.Intn(8))
		if secp256k1zkp.VerifySignature(*bp(pub), m2, dec) {
			c.Viol("other-message", "signature %x of %x under %v verifies for %x", b, msg, x, m2)
		}
		if secp256k1zkp.VerifySignature(*bp(ref.Neg(pub)), msg, dec) {
			c.Viol("other-key", "signature %x of %x under %v verifies under the opposite key", b, msg, x)
		}
		if secp256k1zkp.VerifySignature(*bp(rndPt(c.R)), msg, dec) {
			c.Viol("other-key", "signature %x of %x under %v verifies under another key", b, msg, x)
		}
		// out-of-range forms of the same signature
		big1 := secp256k1zkp.Signature{S: *new(big.Int).Add(&dec.S, ref.N), R: dec.R}
		got := false
		if p := Try(func() { got = secp256k1zkp.VerifySignature(*bp(pub), msg, big1) }); p != "" {
			c.Viol("verify-panic", "scalar above the order: %s", p)
		} else if got {
			c.Viol("scalar-range", "signature of %x under %v with the order added to its scalar verifies", msg, x)
		}
		neg := secp256k1zkp.Signature{S: dec.S, R: *bp(ref.Neg(ref.Pt{X: dec.R.X, Y: dec.R.Y}))}
		if secp256k1zkp.VerifySignature(*bp(pub), msg, neg) {
			c.Viol("negated-r", "signature of %x under %v with the opposite R verifies", msg, x)
		}
		c.Eval(string(b[:]))
	}
}

// toKernel builds the kernel as the wire would.
func toKernel(k ref.Ker) (t consensus.TxKernel, err error) {
	err = t.Read(newMemConn(k.Enc()))
	return
}

// judge09 compares the verdict on one kernel.
func judge09(c *Ctx, what string, k ref.Ker) {
	want := false
	if p, ok := ref.UnCommit33(k.Excess); ok {
		want = ref.Verify(p, ref.KernelMsg(k.Fee, k.Lock), k.Sig)
	}
	t, err := toKernel(k)
	if err != nil {
		if want {
			c.Viol(what+":undecodable", "kernel %x does not decode: %v", k.Enc(), err)
		}
		c.Count("undecodable", 1)
		return
	}
	if p := Try(func() { err = t.Validate() }); p != "" {
		c.Viol(what+":panic", "kernel %x: %s", k.Enc(), p)
		return
	}
	if (err == nil) != want {
		c.Viol(fmt.Sprintf("%s:accepted=%v", what, err == nil), "kernel %x (%s): Validate says %v, an independent verifier accepts=%v", k.Enc(), what, err, want)
	}
	if want {
		c.Count("accepted", 1)
	} else {
		c.Count("refused", 1)
	}
	c.Eval(string(k.Enc()))
}

// keyPt is a key pair from the pool, y odd and even alike.
func keyPt(r *rand.Rand) (*big.Int, ref.Pt) {
	ps := points()
	i := r.Intn(len(ps))
	if r.Intn(2) == 0 {
		return new(big.Int).Sub(ref.N, ptKeys[i]), ref.Neg(ps[i])
	}
	return ptKeys[i], ps[i]
}

func signedKernel(r *rand.Rand, feat uint8) (ref.Ker, *big.Int, ref.Pt) {
	x, p := keyPt(r)
	k := ref.Ker{Feat: feat, Fee: rndU64(r), Lock: rndU64(r), Excess: ref.Commit33(p)}
	k.Sig = ref.Sign(p, x, rndScalar(r), ref.KernelMsg(k.Fee, k.Lock))
	return k, x, p
}

func c09kernel(c *Ctx) {
	for i := 0; c.More(i, 120); i++ {
		k, x, p := signedKernel(c.R, uint8(c.R.Intn(2)))
		c.Case("kernel %x", k.Enc())
		judge09(c, "signed", k)
		alt := func(what string, f func(m *ref.Ker)) {
			m := k
			f(&m)
			if m == k {
				return
			}
			judge09(c, what, m)
		}
		alt("fee", func(m *ref.Ker) { m.Fee++ })
		alt("fee", func(m *ref.Ker) { m.Fee ^= 1 << uint(c.R.Intn(64)) })
		alt("lock", func(m *ref.Ker) { m.Lock++ })
		alt("lock", func(m *ref.Ker) { m.Lock ^= 1 << uint(c.R.Intn(64)) })
		alt("fee-lock-swapped", func(m *ref.Ker) { m.Fee, m.Lock = m.Lock, m.Fee })
		alt("excess-opposite", func(m *ref.Ker) { m.Excess[0] ^= 1 })
		alt("excess-other", func(m *ref.Ker) { m.Excess = ref.Commit33(rndPt(c.R)) })
		alt("excess-bit", func(m *ref.Ker) { m.Excess[1+c.R.Intn(32)] ^= 1 << uint(c.R.Intn(8)) })
		alt("features", func(m *ref.Ker) { m.Feat ^= 1 })
		for j := 0; j < 12; j++ {
			alt("sig-bit", func(m *ref.Ker) { m.Sig[c.R.Intn(64)] ^= 1 << uint(c.R.Intn(8)) })
		}
		alt("s-negated", func(m *ref.Ker) {
			s := new(big.Int).SetBytes(m.Sig[32:])
			new(big.Int).Sub(ref.N, s).FillBytes(m.Sig[32:])
		})
		alt("s-other", func(m *ref.Ker) {
			// the scalar that satisfies the equation for the opposite R: s' = s - 2k, as known to the signer
			s := new(big.Int).SetBytes(m.Sig[32:])
			s.Add(s, big.NewInt(1))
			s.Mod(s, ref.N).FillBytes(m.Sig[32:])
		})
		alt("opposite-r", func(m *ref.Ker) {
			// a signature whose R has the root of the wrong kind: sign without correcting the nonce
			kk := rndScalar(c.R)
			R := ref.Mul(ref.G(), kk)
			if big.Jacobi(R.Y, ref.P) == 1 {
				kk.Sub(ref.N, kk)
			}
			// Sign corrects kk; undo the correction in s
			sg := ref.Sign(p, x, kk, ref.KernelMsg(m.Fee, m.Lock))
			s := new(big.Int).SetBytes(sg[32:])
			s.Add(s, new(big.Int).Lsh(kk, 1))
			s.Mod(s, ref.N).FillBytes(sg[32:])
			m.Sig = sg
		})
		alt("s-range", func(m *ref.Ker) { new(big.Int).Add(ref.N, big.NewInt(int64(c.R.Intn(5)))).FillBytes(m.Sig[32:]) })
		alt("r-range", func(m *ref.Ker) { new(big.Int).Add(ref.P, big.NewInt(int64(c.R.Intn(5)))).FillBytes(m.Sig[:32]) })
		alt("zero-sig", func(m *ref.Ker) { m.Sig = [64]byte{} })
		alt("zero-s", func(m *ref.Ker) { copy(m.Sig[32:], make([]byte, 32)) })
		alt("zero-r", func(m *ref.Ker) { copy(m.Sig[:32], make([]byte, 32)) })
		alt("ones", func(m *ref.Ker) {
			for i := range m.Sig {
				m.Sig[i] = 0xff
			}
		})
		alt("random-sig", func(m *ref.Ker) { c.R.Read(m.Sig[:]) })
		alt("excess-range", func(m *ref.Ker) {
			new(big.Int).Add(ref.P, big.NewInt(int64(c.R.Intn(5)))).FillBytes(m.Excess[1:])
		})
		alt("excess-ones", func(m *ref.Ker) {
			for i := range m.Excess[1:] {
				m.Excess[1+i] = 0xff
			}
		})
		alt("half-swapped", func(m *ref.Ker) {
			var s [64]byte
			copy(s[:32], m.Sig[32:])
			copy(s[32:], m.Sig[:32])
			m.Sig = s
		})
	}
	// every bit of the signature of a few kernels
	for i := 0; c.More(i, 2); i++ {
		k, _, _ := signedKernel(c.R, 0)
		for b := 0; b < 512; b++ {
			m := k
			m.Sig[b/8] ^= 1 << uint(b%8)
			judge09(c, "every-sig-bit", m)
		}
		for b := 0; b < 64; b++ {
			m := k
			m.Fee ^= 1 << uint(b)
			judge09(c, "every-fee-bit", m)
			m = k
			m.Lock ^= 1 << uint(b)
			judge09(c, "every-lock-bit", m)
		}
	}
	// real kernels
	for _, f := range []string{"block65927", "tx"} {
		for _, k := range realKernels(f) {
			judge09(c, "real", k)
			c.Count("real_kernels", 1)
		}
	}
}

func realKernels(name string) []ref.Ker {
	r := &ref.R{B: fixture(name)}
	if name == "tx" {
		r.Raw(32)
		b, _ := ref.DecBody(r)
		return b.Kers
	}
	_, b, _ := ref.DecBlock(r)
	return b.Kers
}

// lowOrder is the excess or commitment (0, y), no curve point but of order three under the
// curve's addition formulas.
func lowOrder(r *rand.Rand) (b [33]byte) {
	b[0] = 8 + byte(r.Intn(2))
	return
}

// c09forge tries to forge without any key.
func c09forge(c *Ctx) {
	for i := 0; c.More(i, 400); i++ {
		k := ref.Ker{Feat: uint8(c.R.Intn(2)), Fee: rndU64(c.R), Lock: rndU64(c.R), Excess: lowOrder(c.R)}
		kk := rndScalar(c.R)
		R := ref.Mul(ref.G(), kk)
		if big.Jacobi(R.Y, ref.P) != 1 {
			kk.Sub(ref.N, kk)
		}
		R.X.FillBytes(k.Sig[:32])
		kk.FillBytes(k.Sig[32:])
		judge09(c, "low-order-excess", k)
		// any other x that is on no curve point
		k.Excess = ref.Commit33(rndPt(c.R))
		for {
			c.R.Read(k.Excess[1:])
			if _, ok := ref.UnCommit33(k.Excess); !ok {
				break
			}
		}
		judge09(c, "off-curve-excess", k)
		// R off the curve
		k2, _, _ := signedKernel(c.R, 0)
		for {
			c.R.Read(k2.Sig[:32])
			if _, ok := ref.Lift(new(big.Int).SetBytes(k2.Sig[:32])); !ok {
				break
			}
		}
		judge09(c, "off-curve-r", k2)
		copy(k2.Sig[:32], make([]byte, 32))
		judge09(c, "zero-r", k2)
	}
}

// ---- C10 ----

type outSecret struct {
	out      ref.Out
	v, gamma *big.Int
}

var outPoolOnce sync.Once
var outPool []outSecret
var forged []ref.Out

// rangeOuts makes outputs with range proofs by the proof library itself.
func rangeOuts(c *Ctx, n int) []outSecret {
	outPoolOnce.Do(func() {
		pr := bulletproofs.NewProver(64)
		outPool = make([]outSecret, n)
		var wg sync.WaitGroup
		for i := range outPool {
			wg.Add(1)
			r := subRand(c.R)
			go func(i int) {
				defer wg.Done()
				v := new(big.Int).SetUint64(rndU64(r))
				g := rndScalar(r)
				V := ref.Add(ref.Mul(ref.G(), g), ref.Mul(ref.H(), v))
				var nonce [32]byte
				r.Read(nonce[:])
				proof, err := pr.CreateRangeProof(bp(V), new(big.Int).Set(v), new(big.Int).Set(g), nonce, [16]byte{})
				if err != nil || !pr.Verify(bp(V), proof) {
					c.Fail("range proof for %v: %v", v, err)
					return
				}
				outPool[i] = outSecret{ref.Out{Commit: ref.Commit33(V), Proof: proof.Bytes()}, v, g}
			}(i)
		}
		// proofs for commitments that are no curve points, which the library accepts
		for i := 0; i < 24 && len(forged) < 3; i++ {
			o := ref.Out{Commit: lowOrder(c.R)}
			W := new(bulletproofs.Point)
			W.Read(newMemConn(o.Commit[:]))
			proof, err := pr.CreateRangeProof(W, new(big.Int), new(big.Int), rnd32(c.R), [16]byte{})
			if err == nil && pr.Verify(W, proof) {
				o.Proof = proof.Bytes()
				forged = append(forged, o)
			}
		}
		wg.Wait()
	})
	return outPool
}

// validBody makes a block body that satisfies every rule.
func validBody(c *Ctx, nOut int) ref.Body {
	pool := rangeOuts(c, 14)
	var b ref.Body
	cbO, cbK := c.R.Intn(3) > 0, c.R.Intn(3) > 0
	for _, i := range c.R.Perm(len(pool))[:nOut] {
		o := pool[i].out
		o.Feat = 0
		if cbO {
			o.Feat, cbO = 1, false
		}
		b.Outs = append(b.Outs, o)
	}
	for i := 1 + c.R.Intn(4); i > 0; i-- {
		f := uint8(0)
		if cbK {
			f, cbK = 1, false
		}
		k, _, _ := signedKernel(c.R, f)
		b.Kers = append(b.Kers, k)
	}
	for i := c.R.Intn(5); i > 0; i-- {
		b.Ins = append(b.Ins, ref.In{Feat: uint8(c.R.Intn(2)), Commit: ref.Commit33(rndPt(c.R))})
	}
	return b.Sorted()
}

// judge10 builds the block in the very order given and compares the verdict.
func judge10(c *Ctx, what string, h ref.Hdr, b ref.Body, want bool) {
	blk := new(consensus.Block)
	if err := blk.Read(newMemConn(append(h.Enc(), b.EncAsIs()...))); err != nil {
		c.Viol(what+":undecodable", "block (%s) does not decode: %v", what, err)
		return
	}
	var err error
	ok, p := Guard(2*time.Minute, func() { err = blk.Validate() })
	if !ok {
		c.Viol(what+":hang", "Validate of a block (%s) does not return", what)
		return
	}
	if p != "" {
		c.Viol(what+":panic", "Validate of a block (%s): %s", what, p)
		return
	}
	if (err == nil) != want {
		c.ViolD(fmt.Sprintf("%s:accepted=%v", what, err == nil), fmt.Sprintf("%x", append(h.Enc(), b.EncAsIs()...)),
			"a block with %d inputs, %d outputs, %d kernels (%s): Validate says %v, the rules say accept=%v", len(b.Ins), len(b.Outs), len(b.Kers), what, clip(fmt.Sprint(err), 200), want)
	}
	if want {
		c.Count("accepted", 1)
	} else {
		c.Count("refused_"+what, 1)
	}
	c.Eval(string(b.EncAsIs()) + string(h.Enc()))
}

func c10valid(c *Ctx) {
	h := fixtureHdr(c, "b0")
	r := &ref.R{B: fixture("block65927")}
	rh, rb, err := ref.DecBlock(r)
	if err != nil {
		c.Fail("real block: %v", err)
	}
	judge10(c, "real", rh, rb, true)
	for i := 0; c.More(i, 14); i++ {
		b := validBody(c, 1+c.R.Intn(4))
		judge10(c, "valid", h, b, true)
		if i == 0 {
			c.Sample(map[string]interface{}{"inputs": len(b.Ins), "outputs": len(b.Outs), "kernels": len(b.Kers)})
		}
	}
	// without coinbase
	b := validBody(c, 2)
	for i := range b.Outs {
		b.Outs[i].Feat = 0
	}
	for i := range b.Kers {
		b.Kers[i].Feat = 0
	}
	judge10(c, "no-coinbase", h, b.Sorted(), true)
	// header offences: with a valid body
	for i := 0; c.More(i, 6); i++ {
		b := validBody(c, 1)
		x := h
		switch i % 3 {
		case 0:
			x.Nonce++
		case 1:
			x.Kern[c.R.Intn(32)] ^= 1
		case 2:
			x.Nonces = append([]uint32(nil), h.Nonces...)
			x.Nonces[c.R.Intn(42)] ^= 1
		}
		judge10(c, "header", x, b, false)
	}
	for _, n := range []string{"future", "v1late", "e28", "v3late", "e30scale"} {
		if haveFixture(n) {
			judge10(c, "header", fixtureHdr(c, n), validBody(c, 1), false)
		}
	}
	for _, n := range []string{"v2ok", "v3ok", "e30", "e31", "b1"} {
		if haveFixture(n) {
			judge10(c, "valid", fixtureHdr(c, n), validBody(c, 1), true)
		}
	}
}

func c10kernels(c *Ctx) {
	h := fixtureHdr(c, "b0")
	for round := 0; c.More(round, 3); round++ {
		base := validBody(c, 1)
		for len(base.Kers) < 4 {
			k, _, _ := signedKernel(c.R, 0)
			base.Kers = append(base.Kers, k)
		}
		for _, off := range []string{"sig", "fee", "excess", "foreign"} {
			// each position, each kind of kernel
			for pos := 0; pos < 3; pos++ {
				for feat := uint8(0); feat < 2; feat++ {
					for try := 0; ; try++ {
						b := base
						b.Kers = append([]ref.Ker(nil), base.Kers...)
						for i := range b.Kers {
							b.Kers[i].Feat = 0
						}
						k, _, _ := signedKernel(c.R, feat)
						switch off {
						case "sig":
							k.Sig[c.R.Intn(64)] ^= 1 << uint(c.R.Intn(8))
						case "fee":
							k.Fee++
						case "excess":
							k.Excess = ref.Commit33(rndPt(c.R))
						case "foreign":
							k.Sig = b.Kers[0].Sig
						}
						b.Kers = append(b.Kers, k)
						b = b.Sorted()
						// the offender first, last or inside
						at := 0
						for i := range b.Kers {
							if b.Kers[i] == k {
								at = i
							}
						}
						where := 1
						if at == 0 {
							where = 0
						} else if at == len(b.Kers)-1 {
							where = 2
						}
						if where != pos && try < 200 {
							continue
						}
						judge10(c, fmt.Sprintf("kernel-%s-feat%d", off, feat), h, b, false)
						break
					}
				}
			}
		}
		// counts
		b := base
		b.Kers = nil
		judge10(c, "no-kernel", h, b, false)
		b = base
		b.Kers = append([]ref.Ker(nil), base.Kers...)
		for i := range b.Kers {
			b.Kers[i].Feat = 0
		}
		for n := 2; n <= 3; n++ {
			x := b
			x.Kers = append([]ref.Ker(nil), b.Kers...)
			for i := 0; i < n; i++ {
				x.Kers[c.R.Intn(len(x.Kers))].Feat = 1
			}
			cnt := 0
			for _, k := range x.Kers {
				cnt += int(k.Feat)
			}
			judge10(c, "coinbase-kernels", h, x.Sorted(), cnt <= 1)
		}
		x := b
		x.Kers = append([]ref.Ker(nil), b.Kers...)
		for i := range x.Kers {
			x.Kers[i].Feat = 1
		}
		judge10(c, "coinbase-kernels", h, x.Sorted(), false)
		// kernels that share a part with a valid one of the block
		for i := 0; i < 14; i++ {
			x := base
			x.Kers = append([]ref.Ker(nil), base.Kers[:1+c.R.Intn(3)]...)
			for j := range x.Kers {
				x.Kers[j].Feat = 0
			}
			k, key, p := signedKernel(c.R, 0)
			twin, ok := k, false
			switch i % 7 {
			case 0:
				twin.Fee++
			case 1:
				twin.Lock ^= 1 << uint(c.R.Intn(64))
			case 2:
				twin.Sig[c.R.Intn(64)] ^= 1 << uint(c.R.Intn(8))
			case 3:
				twin.Fee, twin.Sig = rndU64(c.R), x.Kers[0].Sig
			case 4:
				twin.Excess = x.Kers[0].Excess
			case 5: // one key, two valid kernels
				twin.Fee, ok = k.Fee+1, true
				twin.Sig = ref.Sign(p, key, rndScalar(c.R), ref.KernelMsg(twin.Fee, twin.Lock))
			case 6: // the same kernel with another feature
				twin.Feat, ok = 1, true
			}
			x.Kers = append(x.Kers, k, twin)
			judge10(c, "kernel-twin", h, x.Sorted(), ok)
		}
		// order: each adjacent pair
		for i := 0; i+1 < len(base.Kers); i++ {
			x := base
			x = x.Sorted()
			x.Kers[i], x.Kers[i+1] = x.Kers[i+1], x.Kers[i]
			judge10(c, "kernel-order", h, x, false)
		}
		y := base
		for len(y.Ins) < 5 {
			y.Ins = append(y.Ins, ref.In{Feat: uint8(c.R.Intn(2)), Commit: ref.Commit33(rndPt(c.R))})
		}
		y = y.Sorted()
		for i := 0; i+1 < len(y.Ins); i++ {
			z := y.Sorted()
			z.Ins[i], z.Ins[i+1] = z.Ins[i+1], z.Ins[i]
			judge10(c, "input-order", h, z, false)
		}
	}
}

func c10outputs(c *Ctx) {
	h := fixtureHdr(c, "b0")
	pool := rangeOuts(c, 14)
	if len(forged) == 0 {
		c.Fail("no forged range proof found")
	}
	place := func(what string, o ref.Out) {
		for pos := 0; pos < 3; pos++ {
			for try := 0; try < 300; try++ {
				b := validBody(c, 3)
				if o.Feat == 1 {
					for i := range b.Outs {
						b.Outs[i].Feat = 0
					}
				}
				b.Outs = append(b.Outs, o)
				b = b.Sorted()
				at := 0
				for i := range b.Outs {
					if b.Outs[i].Commit == o.Commit && string(b.Outs[i].Proof) == string(o.Proof) {
						at = i
					}
				}
				if (pos == 0 && at == 0) || (pos == 2 && at == 3) || (pos == 1 && at > 0 && at < 3) || try == 299 {
					judge10(c, fmt.Sprintf("%s-feat%d", what, o.Feat), h, b, false)
					break
				}
			}
		}
	}
	for round := 0; c.More(round, 1); round++ {
		for feat := uint8(0); feat < 2; feat++ {
			s := pool[c.R.Intn(len(pool))]
			o := s.out
			o.Feat = feat
			// a proof of another commitment
			x := o
			x.Proof = pool[(c.R.Intn(len(pool)-1)+1)%len(pool)].out.Proof
			if string(x.Proof) != string(o.Proof) {
				place("foreign-proof", x)
			}
			// the commitment of another value or blinding, the opposite commitment
			x = o
			p, _ := ref.UnCommit33(o.Commit)
			x.Commit = ref.Commit33(ref.Add(p, ref.H()))
			place("other-commit", x)
			x.Commit = ref.Commit33(ref.Neg(p))
			place("opposite-commit", x)
			// an altered proof
			x = o
			x.Proof = append([]byte(nil), o.Proof...)
			x.Proof[c.R.Intn(len(x.Proof)-64)] ^= 0x10
			place("altered-proof", x)
			// a commitment that is no curve point
			for _, f := range forged {
				f.Feat = feat
				place("off-curve-commit", f)
			}
		}
		// counts
		b := validBody(c, 3)
		b.Outs = nil
		judge10(c, "no-output", h, b, false)
		for n := 2; n <= 3; n++ {
			b := validBody(c, 4)
			for i := range b.Outs {
				b.Outs[i].Feat = 0
			}
			for _, i := range c.R.Perm(4)[:n] {
				b.Outs[i].Feat = 1
			}
			judge10(c, "coinbase-outputs", h, b.Sorted(), false)
		}
		b = validBody(c, 4)
		for i := 0; i+1 < len(b.Outs); i++ {
			x := b.Sorted()
			x.Outs[i], x.Outs[i+1] = x.Outs[i+1], x.Outs[i]
			judge10(c, "output-order", h, x, false)
		}
	}
}

// ---- C11 ----

func c11retarget(c *Ctx) {
	judge := func(what string, ts []int64, df []uint64) uint64 {
		bl := make(consensus.BlockList, len(ts))
		for i := range ts {
			bl[i].Header.Timestamp = time.Unix(ts[i], 0).UTC()
			bl[i].Header.Difficulty = consensus.Difficulty(df[i])
			bl[i].Header.Height = uint64(len(ts) - i)
			bl[i].Header.TotalDifficulty = consensus.Difficulty(c.R.Uint64())
		}
		var got uint64
		if p := Try(func() { got = uint64(consensus.NextDifficulty(bl)) }); p != "" {
			c.Viol(what+":panic", "%d blocks: %s", len(ts), p)
			return 0
		}
		want := ref.Retarget(ts[:min(len(ts), 71)], df[:min(len(df), 71)])
		ok := false
		for _, w := range want {
			ok = ok || w == got
		}
		if !ok {
			c.Viol(what, "retarget over %d blocks (%s, newest first) times %v difficulties %v gives %d, the rule %v", len(ts), what, ts[:min(len(ts), 71)], df[:min(len(df), 71)], got, want)
		}
		for i := range bl {
			if bl[i].Header.Timestamp.Unix() != ts[i] || uint64(bl[i].Header.Difficulty) != df[i] {
				c.Viol("modified", "the retarget changed its input")
				break
			}
		}
		c.Eval(fmt.Sprint(ts, df))
		c.Count(what, 1)
		return got
	}
	mk := func(n int, step func(i int) int64, diff func(i int) uint64) (ts []int64, df []uint64) {
		t := int64(1540000000 + c.R.Intn(1<<26))
		ts, df = make([]int64, n), make([]uint64, n)
		for i := n - 1; i >= 0; i-- {
			t += step(i)
			ts[i], df[i] = t, diff(i)
		}
		return
	}
	konst := func(k int64) func(int) int64 { return func(int) int64 { return k } }
	constD := func(d uint64) func(int) uint64 { return func(int) uint64 { return d } }
	// short histories
	for n := 0; n < 75; n++ {
		for k := 0; k < 3; k++ {
			ts, df := mk(n, konst(int64(c.R.Intn(200))), constD(c.R.Uint64()>>uint(17+c.R.Intn(40))))
			g := judge("short", ts, df)
			if (n == 0 && g != 0) || (n > 0 && n < 71 && g != 1) {
				c.Viol("short", "%d blocks give %d", n, g)
			}
		}
	}
	// steady pace: kept on schedule, raised when faster, lowered when slower
	for pace := int64(1); pace < 200; pace++ {
		d := uint64(1000 + c.R.Intn(1<<40))
		ts, df := mk(71+c.R.Intn(40), konst(pace), constD(d))
		g := judge("pace", ts, df)
		if (pace == 60 && g != d) || (pace < 60 && g <= d) || (pace > 60 && g >= d) {
			c.Viol("direction", "steady pace of %d s at difficulty %d gives %d", pace, d, g)
		}
	}
	for i := 0; c.More(i, 6000); i++ {
		n := 71 + c.R.Intn(60)*c.R.Intn(2)
		scale := int64(1) << uint(c.R.Intn(9))
		dbits := uint(16 + c.R.Intn(47))
		step := func(int) int64 { return c.R.Int63n(2*scale) + 1 }
		if c.R.Intn(4) == 0 { // jumps, also back
			step = func(int) int64 {
				if c.R.Intn(8) == 0 {
					return c.R.Int63n(20000) - 6000
				}
				return c.R.Int63n(120)
			}
		}
		what := "random"
		switch c.R.Intn(8) {
		case 0: // exactly around the clamps and the ideal
			what = "clamp"
			goal := []int64{-3600, -3598, 3600, 18000, 18001, 17999, 7200, 0, 3601, 3599}[c.R.Intn(10)] + c.R.Int63n(9) - 4
			if c.R.Intn(3) == 0 { // far beyond
				what = "far"
				goal = int64(1)<<uint(15+c.R.Intn(30)) + c.R.Int63n(40000) - 20000
				if c.R.Intn(2) == 0 {
					goal = -goal
				}
			}
			if c.R.Intn(9) == 0 {
				// the proofs allow difficulties up to the maximum target
				what, dbits = "huge", uint(4+c.R.Intn(12))
			}
			ts, df := mk(n, konst(1), func(int) uint64 { return c.R.Uint64() >> dbits })
			for k := 0; k < 11; k++ {
				ts[k] = ts[60] + goal
			}
			for k := 60; k < 71; k++ {
				ts[k] = ts[60]
			}
			if c.R.Intn(9) == 0 {
				// headers may be as old as 64 bits tell
				what = "ancient"
				old := math.MinInt64 + int64(c.R.Uint64()>>uint(1+c.R.Intn(63)))
				for k := 60; k < 71; k++ {
					ts[k] = old
				}
				if c.R.Intn(2) == 0 {
					for k := 0; k < 11; k++ {
						ts[k], ts[60+k] = old, ts[k]
					}
				}
			}
			judge(what, ts, df)
			continue
		case 1: // outliers the medians must drop
			what = "outliers"
			ts, df := mk(n, konst(60), func(int) uint64 { return c.R.Uint64() >> dbits })
			for k := 0; k < 5; k++ {
				ts[c.R.Intn(11)] += c.R.Int63n(100000) - 50000
				ts[60+c.R.Intn(11)] += c.R.Int63n(100000) - 50000
			}
			judge(what, ts, df)
			continue
		case 2: // what must not matter: the middle's times, the oldest difficulties, anything older
			ts, df := mk(131, step, func(int) uint64 { return c.R.Uint64() >> dbits })
			a := judge("window", ts, df)
			for k := range ts {
				if k >= 11 && k < 60 || k >= 71 {
					ts[k] = rndTS(c.R)
				}
				if k >= 60 {
					df[k] = c.R.Uint64()
				}
			}
			if b := judge("window", ts, df); a != b {
				c.Viol("window", "blocks outside the windows change the result from %d to %d", a, b)
			}
			if b := judge("window", ts[:71], df[:71]); a != b {
				c.Viol("window", "cutting the history to 71 blocks changes the result from %d to %d", a, b)
			}
			continue
		case 3:
			what = "tiny"
			dbits = 62
		}
		ts, df := mk(n, step, func(int) uint64 { return c.R.Uint64() >> dbits })
		judge(what, ts, df)
	}
}

// ---- C16 ----

func c16short(c *Ctx) {
	for i := 0; c.More(i, 60000); i++ {
		h := make(consensus.Hash, 32)
		b := make(consensus.Hash, 32)
		c.R.Read(h)
		c.R.Read(b)
		switch c.R.Intn(6) {
		case 0:
			x := rnd32(c.R)
			copy(h, x[:])
		case 1:
			x := rnd32(c.R)
			copy(b, x[:])
		case 2: // objects are hashes of 32 bytes, but any length has an id
			h = h[:c.R.Intn(33)]
		}
		h0, b0 := append(consensus.Hash(nil), h...), append(consensus.Hash(nil), b...)
		var id, id2 consensus.ShortID
		if p := Try(func() { id = h.ShortID(b); id2 = h.ShortID(b) }); p != "" {
			c.Viol("panic", "%s", p)
			continue
		}
		want := ref.ShortID(h0, b0)
		if string(id) != string(want[:]) || string(id2) != string(id) {
			c.Viol("value", "short id of %x in %x is %x then %x, expected %x", []byte(h0), []byte(b0), []byte(id), []byte(id2), want)
		}
		if string(h) != string(h0) || string(b) != string(b0) {
			c.Viol("modified", "computing a short id changed its hashes")
		}
		// only the first half of the block hash matters
		b2 := append(consensus.Hash(nil), b...)
		c.R.Read(b2[16:])
		if string(h.ShortID(b2)) != string(want[:]) {
			c.Viol("key", "the short id of %x depends on the second half of %x", []byte(h0), []byte(b0))
		}
		// the result is not shared
		for k := range id {
			id[k] ^= 0xff
		}
		if string(h.ShortID(b)) != string(want[:]) || string(id2) != string(want[:]) {
			c.Viol("shared", "short ids share memory")
		}
		c.Eval(string(h0) + string(b0))
	}
	// order of lists
	for i := 0; c.More(i, 3000); i++ {
		n := c.R.Intn(40)
		l := make(consensus.ShortIDList, n)
		for k := range l {
			l[k] = make(consensus.ShortID, 6)
			c.R.Read(l[k])
			if k > 0 && c.R.Intn(2) == 0 { // share prefixes
				copy(l[k], l[c.R.Intn(k)][:c.R.Intn(7)])
			}
		}
		ref1 := make([]string, n)
		for k := range l {
			ref1[k] = string(l[k])
		}
		sort.Strings(ref1)
		for a := 0; a < n; a++ {
			b := c.R.Intn(n)
			if l.Less(a, b) != (string(l[a]) < string(l[b])) {
				c.Viol("order", "Less(%x, %x) is %v", []byte(l[a]), []byte(l[b]), l.Less(a, b))
			}
		}
		sort.Sort(l)
		for k := range l {
			if string(l[k]) != ref1[k] {
				c.Viol("order", "sorted short ids are not in byte order")
				break
			}
		}
		c.Eval(fmt.Sprint("list", ref1))
	}
	// concurrent use of one hash
	h, b := make(consensus.Hash, 32), make(consensus.Hash, 32)
	c.R.Read(h)
	c.R.Read(b)
	want := ref.ShortID(h, b)
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 2000; i++ {
				if string(h.ShortID(b)) != string(want[:]) {
					c.Viol("concurrent", "short id differs under concurrency")
					return
				}
			}
		}()
	}
	wg.Wait()
}

// ---- C17 ----

func refCommit(b, v *big.Int) ref.Pt { return ref.Add(ref.Mul(ref.G(), b), ref.Mul(ref.H(), v)) }

func samePt(p *bulletproofs.Point, q ref.Pt) bool {
	if q.Inf() {
		return p.X.Sign() == 0 && p.Y.Sign() == 0
	}
	return p.X.Cmp(q.X) == 0 && p.Y.Cmp(q.Y) == 0
}

func c17commit(c *Ctx) {
	sc := func() *big.Int {
		if c.R.Intn(8) == 0 {
			return new(big.Int)
		}
		return rndScalar(c.R)
	}
	val := func() *big.Int {
		if c.R.Intn(4) == 0 {
			return sc()
		}
		return new(big.Int).SetUint64(rndU64(c.R))
	}
	for i := 0; c.More(i, 700); i++ {
		b1, v1, b2, v2 := sc(), val(), sc(), val()
		if c.R.Intn(6) == 0 { // cancelling pairs
			b2 = new(big.Int).Mod(new(big.Int).Neg(b1), ref.N)
		}
		if c.R.Intn(6) == 0 {
			v2 = new(big.Int).Mod(new(big.Int).Neg(v1), ref.N)
		}
		if c.R.Intn(10) == 0 {
			b2, v2 = new(big.Int).Set(b1), new(big.Int).Set(v1)
		}
		c.Case("commitments %v %v %v %v", b1, v1, b2, v2)
		keep := fmt.Sprint(b1, v1, b2, v2)
		var c1, c2, cs, sum *bulletproofs.Point
		if p := Try(func() {
			c1, c2 = secp256k1zkp.CommitValue(b1, v1), secp256k1zkp.CommitValue(b2, v2)
			s, t := new(big.Int).Add(b1, b2), new(big.Int).Add(v1, v2)
			s.Mod(s, ref.N)
			t.Mod(t, ref.N)
			cs = secp256k1zkp.CommitValue(s, t)
			sum = bulletproofs.SumPoints(c1, c2)
		}); p != "" {
			c.Viol("panic", "commitments of %s: %s", keep, p)
			continue
		}
		if keep != fmt.Sprint(b1, v1, b2, v2) {
			c.Viol("modified", "committing changed its arguments")
		}
		r1, r2 := refCommit(b1, v1), refCommit(b2, v2)
		if !samePt(c1, r1) || !samePt(c2, r2) {
			c.Viol("value", "commitment of %s is wrong: %v %v", keep, c1, c2)
		}
		if !samePt(sum, ref.Add(r1, r2)) || !samePt(cs, ref.Add(r1, r2)) {
			c.Viol("homomorphic", "commitments of %s do not add up: %v and %v", keep, sum, cs)
		}
		if !r1.Inf() && !ref.OnCurve(ref.Pt{X: c1.X, Y: c1.Y}) {
			c.Viol("off-curve", "commitment of %s is no curve point", keep)
		}
		c.Eval(keep)
	}
	// distinct openings, distinct commitments
	seen := map[string]string{}
	for b := int64(0); b < 12; b++ {
		for v := int64(0); v < 12; v++ {
			p := secp256k1zkp.CommitValue(big.NewInt(b), big.NewInt(v))
			if !samePt(p, refCommit(big.NewInt(b), big.NewInt(v))) {
				c.Viol("value", "commitment of %d under %d is %v", v, b, p)
			}
			if o, ok := seen[p.String()]; ok {
				c.Viol("collision", "commitments of %d,%d and %s are equal", b, v, o)
			}
			seen[p.String()] = fmt.Sprint(b, ",", v)
			c.Eval(fmt.Sprint("small", b, v))
		}
	}
}

func c17pubkey(c *Ctx) {
	for i := 0; c.More(i, 3000); i++ {
		p := rndPt(c.R)
		if c.R.Intn(3) == 0 {
			p = ref.Add(p, rndPt(c.R))
			if p.Inf() {
				continue
			}
		}
		q := bp(p)
		got := secp256k1zkp.CompressPubkey(*q)
		if got != ref.Pub33(p) {
			c.Viol("pubkey", "compressed key of %v is %x, expected %x", q, got, ref.Pub33(p))
		}
		back, ok := ref.UnPub33(got)
		if !ok || !back.Eq(p) {
			c.Viol("pubkey-recover", "compressed key %x does not recover %v", got, q)
		}
		if !q.Equals(bp(p)) {
			c.Viol("modified", "compressing changed the key")
		}
		c.Eval(string(got[:]))
	}
	// small x coordinates: leading zero bytes
	n := 0
	for x := int64(1); n < 60; x++ {
		for _, sh := range []uint{0, 8, 64, 248} {
			p, ok := ref.Lift(new(big.Int).Mod(new(big.Int).Lsh(big.NewInt(x), sh), ref.P))
			if !ok {
				continue
			}
			n++
			for _, q := range []ref.Pt{p, ref.Neg(p)} {
				got := secp256k1zkp.CompressPubkey(*bp(q))
				if got != ref.Pub33(q) {
					c.Viol("pubkey", "compressed key of %v is %x", bp(q), got)
				}
				c.Eval(string(got[:]))
			}
		}
	}
	for i := 0; c.More(i, 30000); i++ {
		f, l := rndU64(c.R), rndU64(c.R)
		got := secp256k1zkp.ComputeMessage(f, l)
		if got != ref.KernelMsg(f, l) {
			c.Viol("message", "message of fee %d lock %d is %x", f, l, got)
		}
		c.Eval(fmt.Sprint("m", f, "/", l))
	}
	_ = math.MaxInt64
}

func init() {
	register(&Prop{ID: "C09", Min: 4000,
		Rule: "signatures made by the code under random and extreme keys, verified by the code (directly and after 64-byte coding) and by an independent verifier; kernels signed independently, with every kind of alteration (all fee, lock and signature bits, scalars and coordinates out of range, opposite points, excess off the curve, low-order forgeries without a key), judged against the independent verifier. Distinct by kernel or signature bytes.",
		Jobs: []Job{{Name: "sign", Fn: c09sign}, {Name: "kernel", Fn: c09kernel}, {Name: "forge", Fn: c09forge}}})
	register(&Prop{ID: "C10", Min: 100,
		Rule:   "a mined header with generated bodies (real range proofs, independently signed kernels), valid or with exactly one offence: each kind at first, inner and last position, on coinbase and plain items; each adjacent pair of lists of 2 to 9 items out of order; pairs of feature bytes with the coinbase bit among others; headers nobody mined (verif hook) with one rule broken or none. Distinct by block bytes.",
		Assume: []string{"the bulletproofs library decides whether a range proof matches a commitment that is a curve point"},
		Jobs: []Job{{Name: "valid", Fn: c10valid}, {Name: "kernels", Fn: c10kernels}, {Name: "outputs", Fn: c10outputs},
			{Name: "order", Fn: c10order}, {Name: "many", Fn: c10many}, {Name: "headers", Fn: c10headers}}})
	register(&Prop{ID: "C11", Min: 5000,
		Rule:   "histories of 0 to 131 blocks: steady paces, random and jumping times, outliers around the medians, clamp boundaries, differences outside the windows; results compared with an independent computation in integers. Distinct by history.",
		Assume: []string{"difficulties below 2^48 (no 64-bit overflow of the window sum times 3600)"},
		Jobs:   []Job{{Name: "retarget", Fn: c11retarget}}})
	register(&Prop{ID: "C16", Min: 30000,
		Rule: "random and extreme hashes; short ids compared with an independent SipHash; list order compared with byte order; sequences and concurrent rounds over block hashes alike in all but a few bytes. Distinct by hash pair.",
		Jobs: []Job{{Name: "short", Fn: c16short}, {Name: "history", Fn: c16history}, {Name: "history-race", Race: true, Fn: c16history}}})
	register(&Prop{ID: "C17", Min: 5000,
		Rule: "random, zero, extreme and cancelling scalars; commitments, sums, compressed keys and kernel messages compared with independent curve arithmetic. Distinct by arguments.",
		Jobs: []Job{{Name: "commit", Fn: c17commit}, {Name: "pubkey", Fn: c17pubkey}}})
}
