package main

import (
	"bytes"
	"fmt"
	"sync"
	"time"

	"github.com/dblokhin/gringo/chain"
	"github.com/dblokhin/gringo/consensus"

	"verif/ref"
)

// ---- C07 on headers nobody mined ----

// judge07b judges a header whose proof counts as valid exactly if it is blessed.
func judge07b(c *Ctx, what string, h ref.Hdr, now int64) {
	want := headerRules(h, now) && len(h.Nonces) == 42 && isBlessed(h)
	var x consensus.BlockHeader
	if c.R.Intn(2) == 0 && len(h.Nonces) == 42 {
		if err := x.Read(newMemConn(h.Enc())); err != nil {
			c.Viol("read", "header %s does not decode: %v", what, err)
			return
		}
		c.Count("headers_from_the_wire", 1)
	} else {
		x = toHdr(h)
	}
	var err error
	if p := Try(func() { err = x.Validate() }); p != "" {
		c.Viol("panic", "%s: %s", what, p)
		return
	}
	if (err == nil) != want {
		c.Viol(fmt.Sprintf("%s:accepted=%v", what, err == nil), "header %s (version %d height %d time %d bits %d scaling %d, %d nonces, proof valid=%v) at %d: Validate says %v, the rules say accept=%v",
			what, h.Version, h.Height, h.TS, h.EdgeBits, h.Scaling, len(h.Nonces), isBlessed(h), now, err, want)
	}
	if want {
		c.Count("accepted", 1)
	} else {
		c.Count("refused", 1)
	}
	c.Eval(fmt.Sprintf("%x %d %v %d", h.EncNoPow(), h.EdgeBits, h.Nonces, now))
}

// alter07 breaks one rule, by little, or none.
func alter07(c *Ctx, h ref.Hdr, now int64) (string, ref.Hdr) {
	renonce := func() { h.Nonces = ascNonces(c.R, min(h.EdgeBits, 32), 42) }
	switch c.R.Intn(12) {
	case 0:
		h.Version = uint16(c.R.Intn(6))
		return "version", bless(h)
	case 1:
		h.Version += uint16(1 << uint(c.R.Intn(16)))
		return "version", bless(h)
	case 2:
		h.Height = []uint64{0, 94999, 95000, 249999, 250000, 499999, 500000, 750000, 1 << 40, 1<<64 - 1}[c.R.Intn(10)]
		if c.R.Intn(2) == 0 {
			h.Version = versionAt(h.Height)
		}
		return "height", bless(h)
	case 3:
		h.TS = now + []int64{-1 << 50, -1 << 40, -100000, 0, 1, 300, 719 - 60, 721 + 60, 900, 86400, 1 << 33, 1 << 40, 1 << 62, 1<<63 - 1 - now, -1 << 63}[c.R.Intn(15)]
		return "time", bless(h)
	case 4:
		h.Scaling = []uint32{0, 1, 2, 3, 1856, 1 << 31, 1<<32 - 1}[c.R.Intn(7)]
		return "scaling", bless(h)
	case 5:
		h.EdgeBits = uint8(1 + c.R.Intn(64))
		renonce()
		return "bits", bless(h)
	case 6:
		h.EdgeBits = []uint8{26, 27, 28, 29, 30, 31, 32, 33, 63, 64}[c.R.Intn(10)]
		renonce()
		h.Scaling = []uint32{0, 1, 1, 2}[c.R.Intn(4)]
		return "bits-scaling", bless(h)
	case 7:
		h.Nonce++
		return "no-proof", h
	case 8:
		h.Nonces = ascNonces(c.R, h.EdgeBits, []int{0, 1, 2, 41, 43, 84}[c.R.Intn(6)])
		return "nonce-count", bless(h)
	case 9:
		renonce()
		return "another-proof", h
	}
	return "right", bless(h)
}

func c07blessed(c *Ctx) {
	if !hooked(c) {
		return
	}
	for i := 0; c.More(i, 150000); i++ {
		now := time.Now().Unix()
		h := newHdr(c.R)
		bless(h)
		what, x := alter07(c, h, now)
		judge07b(c, what, x, now)
	}
}

// c07clock: the time limit on an exact clock, over all kinds of headers.
func c07clock(c *Ctx) {
	if !hooked(c) {
		return
	}
	var l []clocked
	for i := 0; c.More(i, 6000); i++ {
		h := bless(newHdr(c.R))
		at := 946684800 + c.R.Int63n(4000000000)
		off := []int64{-1 << 40, -86400, 0, 60, 300, 660, 719, 720, 721, 722, 780, 1440, 86400, 1 << 40}[c.R.Intn(14)]
		h.TS = at + off
		bless(h)
		l = append(l, clocked{time.Unix(at, 0).UTC(), func() { judge07b(c, fmt.Sprintf("clock%+d", off), h, at) }})
	}
	runClocked(c, l)
}

// c07lists: a list of headers given to a chain is accepted exactly if each header is.
func c07lists(c *Ctx) {
	if !hooked(c) {
		return
	}
	g := toBlock(newHdr(c.R), ref.Body{})
	ch := chain.New(g, newStore(g))
	// every length up to 140, and those about larger powers of two, have all ends altered
	var lens []int
	for n := 1; n <= 140; n++ {
		lens = append(lens, n, n)
	}
	for _, n := range []int{192, 255, 256, 257, 384, 500, 510, 511, 512, 513, 514, 600, 767, 768, 1023, 1024, 1025, 1500} {
		lens = append(lens, n, n, n)
	}
	for i := 0; i < c.N(1500)+len(lens); i++ {
		n := c.R.Intn(12)
		if i%50 == 0 {
			n = 512 - c.R.Intn(3)
		}
		if i < len(lens) {
			n = lens[i]
		}
		now := time.Now().Unix()
		var hs []ref.Hdr
		for k := 0; k < n; k++ {
			h := bless(newHdr(c.R))
			if k > 0 && c.R.Intn(2) == 0 {
				h.Prev, h.Height = hs[k-1].ID(), min(hs[k-1].Height+1, 499999)
				h.Version = versionAt(h.Height)
				bless(h)
			}
			hs = append(hs, h)
		}
		bad, what := -1, "right"
		if n > 0 && (c.R.Intn(4) > 0 || i < len(lens)) {
			bad = []int{0, n - 1, c.R.Intn(n)}[c.R.Intn(3)]
			if i < len(lens) {
				bad = []int{n - 1, c.R.Intn(n)}[i%2]
			}
			right := hs[bad]
			if n > 1 && c.R.Intn(3) == 0 {
				// like another one of the list, proof and all
				right = hs[c.R.Intn(n)]
			}
			for try := 0; try < 20; try++ {
				what, hs[bad] = alter07(c, right, now)
				if i >= len(lens) || !headerRules(hs[bad], now) || len(hs[bad].Nonces) != 42 || !isBlessed(hs[bad]) {
					break
				}
			}
		}
		want := true
		var in []consensus.BlockHeader
		for _, h := range hs {
			want = want && headerRules(h, now) && len(h.Nonces) == 42 && isBlessed(h)
			in = append(in, toHdr(h))
		}
		var err error
		if p := Try(func() { err = ch.ProcessHeaders(in) }); p != "" {
			c.Viol("list-panic", "%d headers: %s", n, p)
			continue
		}
		if (err == nil) != want {
			c.Viol(fmt.Sprintf("list:accepted=%v", err == nil), "a list of %d headers, number %d altered (%s): ProcessHeaders says %v, the rules say accept=%v", n, bad, what, err, want)
		}
		c.Count(fmt.Sprintf("lists_accept_%v", want), 1)
		c.Eval(fmt.Sprint("list", i, hs))
	}
}

// ---- C08 on headers nobody mined ----

func c08blessed(c *Ctx) {
	if !hooked(c) {
		return
	}
	for i := 0; c.More(i, 120); i++ {
		h := bless(newHdr(c.R))
		x := toHdr(h)
		if err := x.POW.Validate(&x, x.POW.EdgeBits); err != nil {
			c.Viol("valid-refused", "the proof of a header (%d bits) is refused: %v; header %x", h.EdgeBits, err, h.Enc())
			continue
		}
		raw := h.Enc()
		for b := 0; b < (ref.HdrFixed+1)*8; b++ {
			m := append([]byte(nil), raw...)
			m[b/8] ^= 1 << uint(b%8)
			bh := new(consensus.BlockHeader)
			if err := bh.Read(newMemConn(append(m, make([]byte, 400)...))); err != nil {
				c.Count("undecodable", 1)
				continue
			}
			if e := bh.POW.Validate(bh, bh.POW.EdgeBits); e == nil {
				c.Viol(fmt.Sprintf("altered-accepted:byte%d", b/8), "a header with bit %d of byte %d changed still carries a valid proof; header %x", b%8, b/8, raw)
			}
			c.Eval(fmt.Sprint(i, "/", b))
		}
		// two fields altered together so that sums, sizes or orders agree
		type pair struct {
			n string
			f func(h *ref.Hdr)
		}
		for _, p := range []pair{
			{"roots swapped", func(h *ref.Hdr) { h.UTXO, h.RProof = h.RProof, h.UTXO }},
			{"roots swapped", func(h *ref.Hdr) { h.RProof, h.Kern = h.Kern, h.RProof }},
			{"previous swapped", func(h *ref.Hdr) { h.Prev, h.PrevRoot = h.PrevRoot, h.Prev }},
			{"sizes swapped", func(h *ref.Hdr) { h.OutMmr, h.KerMmr = h.KerMmr, h.OutMmr }},
			{"offset and root swapped", func(h *ref.Hdr) { h.Offset, h.Kern = h.Kern, h.Offset }},
			{"sizes shifted", func(h *ref.Hdr) { h.OutMmr++; h.KerMmr-- }},
			{"nonce and difficulty shifted", func(h *ref.Hdr) { h.Nonce++; h.TD-- }},
			{"nonce and difficulty swapped", func(h *ref.Hdr) { h.Nonce, h.TD = h.TD, h.Nonce }},
		} {
			y := h
			p.f(&y)
			if string(y.Enc()) == string(raw) {
				continue
			}
			z := toHdr(y)
			if e := z.POW.Validate(&z, z.POW.EdgeBits); e == nil {
				c.Viol("altered-accepted:"+p.n, "a header with %s still carries a valid proof", p.n)
			}
			c.Eval(fmt.Sprint(i, p.n))
		}
	}
}

// ---- C10: order and feature bits ----

// c10many has blocks of up to 41 (thorough: 257) outputs, with one bad proof late in the list
func c10many(c *Ctx) {
	if !hooked(c) {
		return
	}
	pool := rangeOuts(c, 14)
	sizes := []int{16, 17, 32, 33, 41}
	if c.Thorough {
		sizes = append(sizes, 15, 18, 31, 34, 48, 50, 63, 64, 65, 100, 128, 129, 257)
	}
	for _, n := range sizes {
		h := bless(newHdr(c.R))
		b := validBody(c, 1)
		b.Ins, b.Outs = nil, nil
		for i, k := range c.R.Perm(14 * 100) {
			if i == n {
				break
			}
			o := pool[k%14].out
			o.Feat = uint8(k / 14 * 2)
			b.Outs = append(b.Outs, o)
		}
		b = b.Sorted()
		judge10(c, "valid-many", h, b, true)
		for _, at := range []int{n - 1, n - 2, c.R.Intn(n)} {
			x := b.Sorted()
			x.Outs[at].Proof = pool[c.R.Intn(14)].out.Proof
			judge10(c, "foreign-proof-many", h, x, bytes.Equal(x.Outs[at].Proof, b.Outs[at].Proof))
		}
		c.Max("max_outputs", int64(n))
	}
}

func c10order(c *Ctx) {
	if !hooked(c) {
		return
	}
	pool := rangeOuts(c, 14)
	for round := 0; c.More(round, 1); round++ {
		for n := 2; n <= 9; n++ {
			h := bless(newHdr(c.R))
			base := validBody(c, 1)
			base.Ins, base.Kers = nil, nil
			for len(base.Ins) < n {
				base.Ins = append(base.Ins, ref.In{Feat: uint8(c.R.Intn(2)), Commit: ref.Commit33(rndPt(c.R))})
			}
			if n%2 == 0 {
				// a coinbase output and a plain one may have one commitment
				base.Ins[1] = ref.In{Feat: 1 - base.Ins[0].Feat, Commit: base.Ins[0].Commit}
			}
			base = base.Sorted()
			k1, _, _ := signedKernel(c.R, 0)
			base.Kers = []ref.Ker{k1}
			judge10(c, "valid-inputs", h, base, true)
			for i := 0; i+1 < n; i++ {
				x := base.Sorted()
				x.Ins[i], x.Ins[i+1] = x.Ins[i+1], x.Ins[i]
				judge10(c, "input-order", h, x, false)
			}
			// one item taken out and put back far off
			x := base.Sorted()
			in := x.Ins[0]
			copy(x.Ins, x.Ins[1:])
			x.Ins[n-1] = in
			judge10(c, "input-order", h, x, false)

			base.Ins = nil
			for len(base.Kers) < n {
				k, _, _ := signedKernel(c.R, 0)
				base.Kers = append(base.Kers, k)
			}
			base = base.Sorted()
			judge10(c, "valid-kernels", h, base, true)
			for i := 0; i+1 < n; i++ {
				x := base.Sorted()
				x.Kers[i], x.Kers[i+1] = x.Kers[i+1], x.Kers[i]
				judge10(c, "kernel-order", h, x, false)
			}
			base.Kers = base.Kers[:1]
			if n > 7 {
				continue
			}
			base.Outs = nil
			for _, i := range c.R.Perm(len(pool))[:n] {
				o := pool[i].out
				o.Feat = 0
				base.Outs = append(base.Outs, o)
			}
			base = base.Sorted()
			if n%3 == 0 {
				judge10(c, "valid-outputs", h, base, true)
			}
			for i := 0; i+1 < n; i++ {
				x := base.Sorted()
				x.Outs[i], x.Outs[i+1] = x.Outs[i+1], x.Outs[i]
				judge10(c, "output-order", h, x, false)
			}
		}
	}
	// neighbours whose hashes agree in their first bytes
	ni := nearPairs().ins
	var kers []ref.Ker
	for len(kers) < 80 {
		k, _, _ := signedKernel(c.R, 0)
		kers = append(kers, k)
	}
	ker := func(i int) ref.Ker { k := kers[i%80]; k.Feat = uint8(i / 80 * 2); return k }
	out := func(i int) ref.Out { o := pool[i%14].out; o.Feat = uint8(i / 14 * 2); return o }
	nk := near(80*128, func(i int) []byte { return ker(i).Hash() })
	no := near(14*128, func(i int) []byte { return out(i).Hash() })
	for i := 0; c.More(i, 20); i++ {
		h := bless(newHdr(c.R))
		base := validBody(c, 1)
		p := ni[c.R.Intn(len(ni))]
		base.Ins = p[:]
		swap := func(what string, b ref.Body, f func(x *ref.Body)) {
			b = b.Sorted()
			judge10(c, "valid-near-"+what, h, b, true)
			f(&b)
			judge10(c, what+"-order-near", h, b, false)
		}
		swap("input", base, func(x *ref.Body) { x.Ins = []ref.In{x.Ins[1], x.Ins[0]} })
		base.Ins = nil
		q := nk[c.R.Intn(len(nk))]
		base.Kers = []ref.Ker{ker(q[0]), ker(q[1])}
		swap("kernel", base, func(x *ref.Body) { x.Kers = []ref.Ker{x.Kers[1], x.Kers[0]} })
		base.Kers = base.Kers[:1]
		if i%4 == 0 && len(no) > 0 {
			q = no[c.R.Intn(len(no))]
			base.Outs = []ref.Out{out(q[0]), out(q[1])}
			swap("output", base, func(x *ref.Body) { x.Outs = []ref.Out{x.Outs[1], x.Outs[0]} })
		}
	}
	// the coinbase bit counts whatever other bits are set
	for round := 0; c.More(round, 2); round++ {
		for _, fs := range [][2]uint8{{1, 1}, {1, 3}, {3, 1}, {3, 3}, {3, 5}, {0x81, 1}, {0xff, 1}, {1, 0xff}, {0x11, 0x21}, {1, 2}, {2, 2}, {0, 1}, {4, 0x80}, {3, 0}, {0xfe, 1}} {
			h := bless(newHdr(c.R))
			two := fs[0]&1 == 1 && fs[1]&1 == 1
			b := validBody(c, 3)
			for i := range b.Outs {
				b.Outs[i].Feat = 0
			}
			p := c.R.Perm(3)
			b.Outs[p[0]].Feat, b.Outs[p[1]].Feat = fs[0], fs[1]
			judge10(c, "coinbase-output-bits", h, b.Sorted(), !two)
			b = validBody(c, 1)
			for i := range b.Kers {
				b.Kers[i].Feat = 0
			}
			for _, f := range fs {
				k, _, _ := signedKernel(c.R, f)
				b.Kers = append(b.Kers, k)
			}
			judge10(c, "coinbase-kernel-bits", h, b.Sorted(), !two)
		}
	}
}

// c10headers: valid bodies under headers that are right or break a rule.
func c10headers(c *Ctx) {
	if !hooked(c) {
		return
	}
	for i := 0; c.More(i, 200); i++ {
		now := time.Now().Unix()
		h := bless(newHdr(c.R))
		b := validBody(c, 1)
		what, x := alter07(c, h, now)
		if len(x.Nonces) != 42 {
			continue
		}
		want := headerRules(x, now) && isBlessed(x)
		judge10(c, "header-"+what, x, b, want)
	}
}

// ---- C16: ids do not depend on what was asked before ----

func c16history(c *Ctx) {
	for i := 0; c.More(i, 4000); i++ {
		base := make(consensus.Hash, 32)
		c.R.Read(base)
		// block hashes alike in all but a few bytes
		var blocks []consensus.Hash
		for k := 0; k < 6; k++ {
			b := append(consensus.Hash(nil), base...)
			switch k {
			case 0:
			case 1:
				b[c.R.Intn(8)] ^= byte(1 + c.R.Intn(255))
			case 2:
				b[8+c.R.Intn(8)] ^= byte(1 + c.R.Intn(255))
			case 3:
				b[15] ^= 1
			case 4:
				b[7] ^= 0x80
			case 5:
				c.R.Read(b[8:16])
			}
			blocks = append(blocks, b)
		}
		var objs []consensus.Hash
		o := make(consensus.Hash, 32)
		c.R.Read(o)
		objs = append(objs, o)
		o2 := append(consensus.Hash(nil), o...)
		o2[c.R.Intn(32)] ^= byte(1 + c.R.Intn(255))
		objs = append(objs, o2)
		ask := func(r func(int) int) {
			for k := 0; k < 12; k++ {
				ob, bl := objs[r(len(objs))], blocks[r(len(blocks))]
				want := ref.ShortID(ob, bl)
				var got consensus.ShortID
				if p := Try(func() { got = ob.ShortID(bl) }); p != "" {
					c.Viol("panic", "%s", p)
					return
				}
				if string(got) != string(want[:]) {
					c.Viol("history", "short id of %x in %x is %x, expected %x, after others were asked for", []byte(ob), []byte(bl), []byte(got), want)
				}
			}
		}
		if i%20 != 0 {
			ask(c.R.Intn)
		} else {
			var wg sync.WaitGroup
			for g := 0; g < 6; g++ {
				wg.Add(1)
				r := subRand(c.R)
				go func() { defer wg.Done(); ask(r.Intn) }()
			}
			wg.Wait()
			c.Count("concurrent_rounds", 1)
		}
		// changing a hash in place changes the id
		b := blocks[0]
		b[c.R.Intn(16)] ^= 4
		want := ref.ShortID(objs[0], b)
		if got := objs[0].ShortID(b); string(got) != string(want[:]) {
			c.Viol("history", "short id after the block hash changed in place is %x, expected %x", []byte(got), want)
		}
		c.Eval(string(base) + string(o))
	}
}
