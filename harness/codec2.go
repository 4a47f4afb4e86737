package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"math/rand"
	"runtime"
	"time"

	"github.com/dblokhin/gringo/consensus"
	"github.com/dblokhin/gringo/p2p"

	"verif/ref"
)

func kindByName(n string) kindDef {
	for _, k := range kinds() {
		if k.name == n {
			return k
		}
	}
	panic(n)
}

// ---- C03 ----

// layout is what the reference codec sees in consumed bytes: the same object re-encoded in
// canonical order with padding bits of range proofs cleared.
func canonical(kind string, b []byte) (enc []byte, sorted, ok bool) {
	r := &ref.R{B: b}
	clear := func(os []ref.Out) []ref.Out {
		x := append([]ref.Out(nil), os...)
		for i := range x {
			p := append([]byte(nil), x[i].Proof...)
			clearPad(p)
			x[i].Proof = p
		}
		return x
	}
	var err error
	switch kind {
	case "header":
		var h ref.Hdr
		h, err = ref.DecHdr(r)
		enc, sorted = h.Enc(), true
	case "block":
		var h ref.Hdr
		var bd ref.Body
		h, bd, err = ref.DecBlock(r)
		if err == nil {
			bd.Outs = clear(bd.Outs)
			sorted = bd.IsSorted()
			enc = append(h.Enc(), bd.EncAsIs()...)
		}
	case "tx":
		off := r.Hash()
		var bd ref.Body
		bd, err = ref.DecBody(r)
		if err == nil {
			bd.Outs = clear(bd.Outs)
			sorted = bd.IsSorted()
			enc = append(append([]byte(nil), off[:]...), bd.EncAsIs()...)
		}
	case "compact":
		var c ref.Compact
		c, err = ref.DecCompact(r)
		if err == nil {
			c.Outs = clear(c.Outs)
			sorted = ref.Body{Outs: c.Outs, Kers: c.Kers}.IsSorted()
			for i := 1; i < len(c.IDs); i++ {
				if bytes.Compare(c.IDs[i][:], c.IDs[i-1][:]) < 0 {
					sorted = false
				}
			}
			enc = c.EncAsIs()
		}
	}
	return enc, sorted, err == nil && r.Err == nil && r.Left() == 0
}

const proofLROff = 32*2 + (1 + 4*32) + 32 + 4*32

func clearPad(p []byte) {
	if len(p) == ref.RangeProofLen {
		p[64] &= 0x0f
		p[proofLROff+1] &= 0x03
	}
}

// judge03 gives bytes to a decoder and compares what it accepts with its re-encoding.
func judge03(c *Ctx, kind, how string, b []byte) {
	x := kindByName(kind).mk()
	c.Case("%s (%s) %s", kind, how, hx(b))
	br := newSrc(b)
	var err error
	var re []byte
	if p := Try(func() {
		if err = x.read(br); err == nil {
			re = x.enc()
		}
	}); p != "" {
		c.Viol("panic:"+kind, "decoding and re-encoding a %s (%s) panicked: %s", kind, how, p)
		return
	}
	c.Count("offered."+kind, 1)
	if err != nil {
		c.Count("refused."+how, 1)
		return
	}
	used := b[:len(b)-br.Len()]
	c.Eval(kind + string(used))
	c.Count("accepted."+how, 1)
	want, sorted, ok := canonical(kind, used)
	if !ok {
		// Not the canonical layout as the reference sees it: then nothing but equality will do.
		if !bytes.Equal(re, used) {
			c.Viol("second:"+kind, "a %s (%s) is accepted although it re-encodes differently: %d bytes consumed, re-encoded as %d, first difference at %d; bytes %s",
				kind, how, len(used), len(re), firstDiff(used, re), hx(used))
		}
		return
	}
	if !sorted {
		c.Count("unsorted", 1)
		return
	}
	if !bytes.Equal(re, want) {
		c.Viol("second:"+kind, "an accepted %s (%s) re-encodes differently at byte %d of %d/%d; bytes %s", kind, how, firstDiff(want, re), len(used), len(re), hx(used))
	}
}

func c03gen(r *rand.Rand, kind string) (enc []byte) {
	for {
		switch kind {
		case "header":
			h := rndHdr(r)
			enc = h.Enc()
		case "block":
			enc = ref.EncBlock(rndHdr(r), rndBody(r))
		case "tx":
			enc = ref.EncTx(rnd32(r), rndBody(r))
		case "compact":
			enc = rndCompact(r).Enc()
		}
		if len(enc) < 12000 {
			return
		}
	}
}

func mutate(r *rand.Rand, b []byte) (string, []byte) {
	x := append([]byte(nil), b...)
	if len(x) < 2 {
		return "insert", append(x, byte(r.Intn(256)))
	}
	switch r.Intn(7) {
	case 0, 1:
		x[r.Intn(len(x))] ^= 1 << uint(r.Intn(8))
		return "bit", x
	case 2:
		x[r.Intn(len(x))] = byte(r.Intn(256))
		return "byte", x
	case 3:
		for k := 1 + r.Intn(4); k > 0; k-- {
			x[r.Intn(len(x))] ^= 1 << uint(r.Intn(8))
		}
		return "bits", x
	case 4:
		at := r.Intn(len(x))
		return "insert", append(x[:at:at], append([]byte{byte(r.Intn(256))}, x[at:]...)...)
	case 5:
		at := r.Intn(len(x))
		return "delete", append(x[:at:at], x[at+1:]...)
	}
	// swap two equally long stretches
	n := 1 + r.Intn(min(40, len(x)/2))
	i, j := r.Intn(len(x)-n+1), r.Intn(len(x)-n+1)
	t := append([]byte(nil), x[i:i+n]...)
	copy(x[i:i+n], x[j:j+n])
	copy(x[j:j+n], t)
	return "swap", x
}

func c03mutate(c *Ctx) {
	for _, kind := range []string{"header", "block", "tx", "compact"} {
		for i := 0; c.More(i, 120); i++ {
			enc := c03gen(c.R, kind)
			judge03(c, kind, "valid", enc)
			for m := 0; m < 40; m++ {
				how, b := mutate(c.R, enc)
				judge03(c, kind, how, b)
			}
		}
	}
	raw := fixture("block65927")
	for m := 0; c.More(m, 1500); m++ {
		how, b := mutate(c.R, raw)
		judge03(c, "block", how, b)
	}
	raw = fixture("tx")
	for m := 0; c.More(m, 1500); m++ {
		how, b := mutate(c.R, raw)
		judge03(c, "tx", how, b)
	}
	c.Sample("valid encodings of each type, each with 40 single mutations (bit, byte, several bits, insert, delete, swap)")
}

func c03targeted(c *Ctx) {
	r := c.R
	// every padding bit and every nonce bit above 32, for every graph size
	for eb := 1; eb <= 64; eb++ {
		h := rndHdr(r)
		h.EdgeBits = uint8(eb)
		h.Nonces = rndNonces(r, h.EdgeBits)
		enc := h.Enc()
		bits := eb * ref.ProofSize
		for b := bits; b < (bits+7)/8*8; b++ {
			x := append([]byte(nil), enc...)
			x[ref.HdrFixed+1+b/8] ^= 1 << uint(b%8)
			judge03(c, "header", "padding", x)
		}
		for k := 0; k < 6 && eb > 32; k++ {
			b := r.Intn(ref.ProofSize)*eb + 32 + r.Intn(eb-32)
			x := append([]byte(nil), enc...)
			x[ref.HdrFixed+1+b/8] ^= 1 << uint(b%8)
			judge03(c, "header", "wide-nonce", x)
			blk := append(append([]byte(nil), x...), ref.Body{}.EncAsIs()...)
			judge03(c, "block", "wide-nonce", blk)
		}
		for k := 0; k < 8; k++ {
			b := r.Intn(bits)
			x := append([]byte(nil), enc...)
			x[ref.HdrFixed+1+b/8] ^= 1 << uint(b%8)
			judge03(c, "header", "nonce-bit", x)
		}
	}
	// range proof lengths: declared shorter or longer than real, with and without the bytes
	for i := 0; c.More(i, 60); i++ {
		h, bd := rndHdr(r), ref.Body{Outs: []ref.Out{rndOut(r)}, Kers: []ref.Ker{rndKer(r)}}
		off := rnd32(r)
		for _, d := range []int{-675, -64, -33, -32, -2, -1, 0, 1, 2, 8, 32, 33, 64, 65, 98, 1000, 5134 - 675, 5135 - 675} {
			for _, withBytes := range []bool{true, false} {
				o := bd.Outs[0]
				var w ref.W
				w.Raw(o.Head())
				w.U64(uint64(675 + d))
				p := append([]byte(nil), o.Proof...)
				if withBytes {
					if d < 0 {
						p = p[:675+d]
					} else {
						ex := make([]byte, d)
						r.Read(ex)
						p = append(p, ex...)
					}
				}
				w.Raw(p)
				var cnt ref.W
				cnt.U64(0)
				cnt.U64(1)
				cnt.U64(1)
				body := append(append(append([]byte(nil), cnt.B...), w.B...), bd.Kers[0].Enc()...)
				how := fmt.Sprintf("prooflen%+d", d)
				judge03(c, "block", how, append(h.Enc(), body...))
				judge03(c, "tx", how, append(append([]byte(nil), off[:]...), body...))
				cp := append(h.Enc(), 1, 1, 0, 0, 0, 0, 0, 0, 0, 0)
				judge03(c, "compact", how, append(append(cp, w.B...), bd.Kers[0].Enc()...))
			}
		}
	}
	// every bit of one output's first 140 bytes, of one kernel and one input
	bd := ref.Body{Ins: []ref.In{rndIn(r)}, Outs: []ref.Out{rndOut(r)}, Kers: []ref.Ker{rndKer(r)}}
	enc := ref.EncTx(rnd32(r), bd)
	for bit := 0; bit < len(enc)*8; bit++ {
		x := append([]byte(nil), enc...)
		x[bit/8] ^= 1 << uint(bit%8)
		judge03(c, "tx", "everybit", x)
	}
	// points: every prefix byte, x at and above the field prime
	for p := 0; p < 256; p++ {
		for _, f := range []func(b *ref.Body, v byte){
			func(b *ref.Body, v byte) { b.Ins[0].Commit[0] = v },
			func(b *ref.Body, v byte) { b.Outs[0].Commit[0] = v },
			func(b *ref.Body, v byte) { b.Kers[0].Excess[0] = v }} {
			b := ref.Body{Ins: []ref.In{bd.Ins[0]}, Outs: []ref.Out{bd.Outs[0]}, Kers: []ref.Ker{bd.Kers[0]}}
			f(&b, byte(p))
			judge03(c, "tx", "prefix", append(make([]byte, 32), b.EncAsIs()...))
			judge03(c, "block", "prefix", append(func() []byte { h := rndHdr(r); return h.Enc() }(), b.EncAsIs()...))
		}
	}
	for i := 0; c.More(i, 100); i++ {
		b := ref.Body{Ins: []ref.In{bd.Ins[0]}, Outs: []ref.Out{bd.Outs[0]}, Kers: []ref.Ker{bd.Kers[0]}}
		var x [33]byte
		x[0] = byte(8 + r.Intn(2))
		for j := 1; j < 33; j++ {
			x[j] = 0xff
		}
		r.Read(x[29:])
		if i%3 == 0 {
			r.Read(x[1:])
		}
		b.Outs[0].Commit = x
		judge03(c, "tx", "bigx", append(make([]byte, 32), b.EncAsIs()...))
		b.Outs[0] = bd.Outs[0]
		b.Kers[0].Excess = x
		judge03(c, "tx", "bigx", append(make([]byte, 32), b.EncAsIs()...))
	}
	// wrong order
	for i := 0; c.More(i, 100); i++ {
		b := shuffleBody(r, rndBody(r))
		judge03(c, "tx", "order", append(make([]byte, 32), b.EncAsIs()...))
	}
	c.Sample("padding bits and over-wide nonces for every graph size 1..64; declared proof lengths 0..5135 with and without matching bytes; every bit of a transaction; every point prefix")
}

// ---- C04 ----

const allocBudget = 512 << 20

// probe04 runs one decoder on bytes and watches it.
func probe04(c *Ctx, what string, b []byte, wantErr bool, f func(r *src) error) {
	c.Case("%s len %d %s", what, len(b), hx(b))
	var m0, m1 runtime.MemStats
	runtime.ReadMemStats(&m0)
	var err error
	t := time.Now()
	in := newSrc(b)
	in.dribble(c.R, c.R.Intn(2) == 0)
	p := Try(func() { err = f(in) })
	d := time.Since(t)
	runtime.ReadMemStats(&m1)
	c.Eval(what + string(b))
	if p != "" {
		c.Viol("panic:"+what, "decoding a %s from %d bytes panicked: %s; bytes %s", what, len(b), p, hx(b))
		return
	}
	if a := m1.TotalAlloc - m0.TotalAlloc; a > allocBudget {
		c.Viol("alloc:"+what, "decoding a %s from %d bytes allocated %d MB; bytes %s", what, len(b), a>>20, hx(b))
	} else {
		c.mu.Lock()
		if v := int64(a >> 20); v > c.res.Counts["max_alloc_MB"] {
			c.res.Counts["max_alloc_MB"] = v
		}
		c.mu.Unlock()
	}
	if d > Long {
		c.Viol("stall:"+what, "decoding a %s from %d bytes took %v", what, len(b), d)
	}
	if err == nil {
		c.Count("accepted", 1)
		if wantErr {
			c.Viol("prefix:"+what, "a %s cut to its first %d bytes is accepted; bytes %s", what, len(b), hx(b))
		}
	} else {
		c.Count("refused", 1)
	}
}

func c04prefix(c *Ctx) {
	for _, k := range kinds() {
		for i := 0; c.More(i, 6); i++ {
			_, enc, _ := k.gen(c.R)
			if len(enc) > 60000 {
				continue
			}
			var at []int
			if len(enc) <= 400 {
				for n := range enc {
					at = append(at, n)
				}
			} else {
				at = append(at, 0, 1, len(enc)-1, len(enc)-2, len(enc)-64, len(enc)-65)
				for j := 0; j < 60; j++ {
					at = append(at, c.R.Intn(len(enc)))
				}
				for n := 0; n < 300; n++ {
					if j := n * len(enc) / 300; j < len(enc) {
						at = append(at, j)
					}
				}
			}
			for _, n := range at {
				x := k.mk()
				probe04(c, k.name, enc[:n], true, x.read)
			}
			// framed and cut: header cut, body cut
			if k.typ >= 0 {
				fr := ref.Frame(uint8(k.typ), enc)
				for j := 0; j < 25; j++ {
					n := c.R.Intn(len(fr))
					if j < 12 && j < len(fr) {
						n = j
					}
					m, _ := k.message()
					if m == nil {
						break
					}
					probe04(c, "frame:"+k.name, fr[:n], true, func(r *src) error { _, err := p2p.ReadMessage(r, m); return err })
				}
			}
		}
	}
	c.Sample("every (short) or 360 sampled (long) proper prefixes of valid encodings of each type")
}

func c04garbage(c *Ctx) {
	for _, k := range kinds() {
		for i := 0; c.More(i, 250); i++ {
			var b []byte
			switch c.R.Intn(3) {
			case 0:
				b = make([]byte, c.R.Intn(600))
				c.R.Read(b)
			case 1:
				b = make([]byte, c.R.Intn(600))
				v := byte(c.R.Intn(256))
				if c.R.Intn(2) == 0 {
					v = []byte{0, 0xff, 1, 0x80}[c.R.Intn(4)]
				}
				for j := range b {
					b[j] = v
				}
			default:
				_, b, _ = k.gen(c.R)
				if len(b) > 0 {
					for m := c.R.Intn(3); m >= 0 && len(b) > 0; m-- {
						_, b = mutate(c.R, b)
						if len(b) == 0 {
							break
						}
					}
				}
			}
			x := k.mk()
			probe04(c, k.name, b, false, x.read)
			// whatever was decoded can be printed, hashed, encoded and validated without a crash
			y := k.mk()
			if p := Try(func() {
				if y.read(newSrc(b)) == nil {
					y.enc()
				}
			}); p != "" {
				c.Viol("reencode:"+k.name, "re-encoding a decoded %s panicked: %s", k.name, p)
			}
		}
	}
	for i := 0; c.More(i, 300); i++ {
		b := make([]byte, c.R.Intn(40))
		c.R.Read(b)
		if c.R.Intn(2) == 0 && len(b) >= 11 {
			copy(b, ref.Magic[:])
			b[2] = byte(c.R.Intn(24))
			for j := 3; j < 9; j++ {
				b[j] = 0
			}
		}
		h := &p2p.Header{}
		probe04(c, "frameheader", b, false, func(r *src) error { return h.Read(r) })
		k := kinds()[c.R.Intn(len(kinds()))]
		if m, _ := k.message(); m != nil {
			probe04(c, "frame:"+k.name, b, false, func(r *src) error { _, err := p2p.ReadMessage(r, m); return err })
		}
	}
	c.Sample("random, constant and multiply mutated bytes given to each decoder")
}

var extremes = []uint64{0, 1, 2, 13, 14, 15, 255, 256, 257, 511, 512, 513, 4096, 65535, 99999, 100000, 100001, 999999, 1000000, 1000001, 1 << 24, 1 << 31, 1 << 32, 1 << 33, 1 << 40, 1 << 62, 1 << 63, math.MaxUint64 - 7, math.MaxUint64}

func c04counts(c *Ctx) {
	r := c.R
	one := func(kind string, b []byte) {
		x := kindByName(kind).mk()
		probe04(c, kind, b, false, x.read)
	}
	u64 := func(v ...uint64) (b []byte) {
		for _, x := range v {
			b = binary.BigEndian.AppendUint64(b, x)
		}
		return
	}
	tails := [][]byte{nil, make([]byte, 100), bytes.Repeat([]byte{8}, 3000)}
	for _, v := range extremes {
		for pos := 0; pos < 3; pos++ {
			cn := []uint64{0, 0, 0}
			cn[pos] = v
			for _, tl := range tails {
				h := rndHdr(r)
				one("block", append(append(h.Enc(), u64(cn...)...), tl...))
				one("tx", append(append(make([]byte, 32), u64(cn...)...), tl...))
			}
		}
		h := rndHdr(r)
		one("block", append(h.Enc(), u64(v, v, v)...))
		one("tx", append(make([]byte, 32), u64(v, v, v)...))
		for _, tl := range tails {
			one("compact", append(append(append(h.Enc(), 0, 0), u64(v)...), tl...))
			one("compact", append(append(append(h.Enc(), byte(v), byte(v)), u64(v)...), tl...))
			one("error", append(append([]byte{0, 0, 0, 1}, u64(v)...), tl...))
			one("headers", append([]byte{byte(v >> 8), byte(v)}, tl...))
			one("getheaders", append([]byte{byte(v)}, tl...))
			one("peeraddrs", append([]byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)}, tl...))
			// range proof length
			o := rndOut(r)
			one("output", append(append(o.Head(), u64(v)...), tl...))
		}
		for _, m := range []string{"block", "tx", "error", "ping"} {
			k := kindByName(m)
			msg, _ := k.message()
			fr := append(append([]byte{ref.Magic[0], ref.Magic[1], byte(k.typ)}, u64(v)...), make([]byte, 60)...)
			probe04(c, "frame:"+m, fr, false, func(r *src) error { _, err := p2p.ReadMessage(r, msg); return err })
		}
	}
	for eb := 0; eb < 256; eb++ {
		for _, n := range []int{0, 1, 10, 336, 337, 1400} {
			p := &consensus.Proof{}
			probe04(c, "proof", append([]byte{byte(eb)}, make([]byte, n)...), false, func(r *src) error { return p.Read(r) })
		}
	}
	c.Sample(map[string]interface{}{"counts": extremes})
}

// c04handshake: both handshake decoders through the two exported roles.
func c04handshake(c *Ctx) {
	r := c.R
	n := newNode(c, nil)
	// accept role: any bytes as the hand
	accept := func(what string, b []byte, wantErr bool) {
		probe04(c, "hand:"+what, b, wantErr, func(rd *src) error {
			cn := newMemConn(b)
			_, err := acceptPeer(cn)
			return err
		})
	}
	goodHand := func() ref.Hand {
		return ref.Hand{Version: 1, Caps: 7, Nonce: r.Uint64(), TD: rndU64(r), Sender: rndAddr(r), Receiver: rndAddr(r), UA: rndUA(r), Genesis: ref.Testnet4Genesis}
	}
	for i := 0; c.More(i, 12); i++ {
		h := goodHand()
		for len(h.UA) > 60 {
			h = goodHand()
		}
		fr := ref.Frame(ref.THand, h.Enc())
		for k := 0; k < len(fr); k++ {
			accept("prefix", fr[:k], true)
		}
		// declared length shorter than the message: a cut body
		for k := 0; k < len(h.Enc()); k += 1 + r.Intn(7) {
			accept("cut", ref.Frame(ref.THand, h.Enc()[:k]), true)
		}
	}
	for i := 0; c.More(i, 600); i++ {
		h := goodHand()
		b := h.Enc()
		for m := r.Intn(3); m >= 0 && len(b) > 0; m-- {
			_, b = mutate(r, b)
		}
		accept("mutated", ref.Frame(ref.THand, b), false)
		b = ref.Frame(ref.THand, h.Enc())
		_, b = mutate(r, b)
		accept("mutated-frame", b, false)
	}
	for _, v := range extremes {
		h := goodHand()
		h.UA = ""
		b := h.Enc()
		b = b[:len(b)-40]
		b = binary.BigEndian.AppendUint64(b, v)
		for _, n := range []int{0, 32, 200} {
			accept("ualen", ref.Frame(ref.THand, append(append([]byte(nil), b...), make([]byte, n)...)), false)
		}
	}
	// dial role: any bytes as the shake
	var cur []byte
	st := newStub(c, "tcp4", stubOpt{shake: func(ref.Hand) []byte { return cur }, onConn: func(sc *sconn) { sc.Close() }})
	shake := func(what string, b []byte, wantErr bool) {
		cur = b
		probe04(c, "shake:"+what, b, wantErr, func(*src) error {
			p, err := p2p.NewPeer(n.sy, st.addr)
			if err == nil {
				p.Start()
				p.Close()
			}
			return err
		})
	}
	goodShake := func() []byte {
		s := ref.Shake{Version: 1, Caps: 7, TD: rndU64(r), UA: rndUA(r)[:0] + "agent", Genesis: ref.Testnet4Genesis}
		return s.Enc()
	}
	s := ref.Frame(ref.TShake, goodShake())
	for k := 0; k < len(s); k++ {
		shake("prefix", s[:k], true)
	}
	for k := 0; k < len(goodShake()); k++ {
		shake("cut", ref.Frame(ref.TShake, goodShake()[:k]), true)
	}
	for i := 0; c.More(i, 300); i++ {
		b := goodShake()
		for m := r.Intn(3); m >= 0 && len(b) > 0; m-- {
			_, b = mutate(r, b)
		}
		shake("mutated", ref.Frame(ref.TShake, b), false)
	}
	for _, v := range extremes {
		s := ref.Shake{Version: 1, Caps: 7, TD: 5, UA: "", Genesis: ref.Testnet4Genesis}
		b := s.Enc()
		b = binary.BigEndian.AppendUint64(append([]byte(nil), b[:len(b)-40]...), v)
		for _, n := range []int{0, 32, 200} {
			shake("ualen", ref.Frame(ref.TShake, append(append([]byte(nil), b...), make([]byte, n)...)), false)
		}
	}
	st.close()
	c.Sample("prefixes, cuts, mutations and user-agent lengths 0..2^64-1 as hand (accepting) and shake (dialling)")
}

// ---- C05 ----

func c05frames(c *Ctx) {
	r := c.R
	for _, k := range kinds() {
		if k.typ < 0 {
			continue
		}
		for i := 0; c.More(i, 40); i++ {
			_, enc, _ := k.gen(r)
			if len(enc) > 200000 {
				continue
			}
			tail := make([]byte, 1+r.Intn(50))
			r.Read(tail)
			read := func(how string, fr []byte) (n uint64, left int, err error, ok bool) {
				m, _ := k.message()
				c.Case("%s %s %s", k.name, how, hx(fr))
				rd := newSrc(append(append([]byte(nil), fr...), tail...))
				rd.dribble(r, r.Intn(2) == 0)
				if p := Try(func() { n, err = p2p.ReadMessage(rd, m) }); p != "" {
					c.Viol("panic:"+k.name, "%s: %s", how, p)
					return 0, 0, nil, false
				}
				c.Eval(how + k.name + string(fr))
				c.Count(how, 1)
				return n, rd.Len(), err, true
			}
			fr := ref.Frame(uint8(k.typ), enc)
			if n, left, err, ok := read("exact", fr); ok && (err != nil || left != len(tail) || n != uint64(len(fr))) {
				c.Viol("exact:"+k.name, "a valid frame of %d bytes: n=%d, %d of %d following bytes left, err=%v", len(fr), n, left, len(tail), err)
			}
			// wrong magic
			x := append([]byte(nil), fr...)
			x[r.Intn(2)] ^= 1 << uint(r.Intn(8))
			if _, _, err, ok := read("magic", x); ok && err == nil {
				c.Viol("magic:"+k.name, "a frame with magic %x is accepted", x[:2])
			}
			if i == 0 {
				// every other magic on the first kind of message, every other type on each
				if k.typ == ref.TPing {
					for v := 0; v < 1<<16; v++ {
						x[0], x[1] = byte(v>>8), byte(v)
						if !bytes.Equal(x[:2], fr[:2]) {
							if _, _, err, ok := read("magic", x); ok && err == nil {
								c.Viol("magic:"+k.name, "a frame with magic %x is accepted", x[:2])
							}
						}
					}
				}
				x = append([]byte(nil), fr...)
				for v := 0; v < 256; v++ {
					if x[2] = byte(v); v != k.typ {
						if _, _, err, ok := read("type", x); ok && err == nil {
							c.Viol("type:"+k.name, "a frame of type %d is accepted as %s", v, k.name)
						}
					}
				}
			}
			// wrong type
			x = append([]byte(nil), fr...)
			for int(x[2]) == k.typ {
				x[2] = byte(r.Intn(24))
				if r.Intn(4) == 0 {
					x[2] = byte(r.Intn(256))
				}
			}
			if _, _, err, ok := read("type", x); ok && err == nil {
				c.Viol("type:"+k.name, "a frame of type %d is accepted as %s", x[2], k.name)
			}
			// declared too long: over the limit, and padded with bytes that belong to the frame
			x = append([]byte(nil), fr...)
			binary.BigEndian.PutUint64(x[3:], []uint64{20000001, 1 << 31, 1 << 32, 1<<63 - 1, 1 << 63, math.MaxUint64, math.MaxUint64 - 10}[r.Intn(7)])
			if _, _, err, ok := read("toolong", x); ok && err == nil {
				c.Viol("length:"+k.name, "a frame declaring %d bytes is accepted", binary.BigEndian.Uint64(x[3:]))
			}
			pad := make([]byte, 1+r.Intn(5000))
			if i%4 == 3 {
				// beyond any buffer; the first of a kind up to the limit itself
				pad = make([]byte, 1<<(12+uint(r.Intn(9)))+r.Intn(5000))
				if i == 3 {
					pad = make([]byte, 20000000-len(enc)-r.Intn(2))
				}
			}
			r.Read(pad[:min(len(pad), 1<<21)])
			x = ref.Frame(uint8(k.typ), append(append([]byte(nil), enc...), pad...))
			if n, left, err, ok := read("padded", x); ok && err == nil && (left != len(tail) || n != uint64(len(x))) {
				c.Viol("padded:"+k.name, "a frame of %d bytes with %d unused: accepted, n=%d, but %d bytes consumed", len(x), len(pad), n, len(x)+len(tail)-left)
			}
			// declared too short: the rest must not be taken for part of the message
			if len(enc) > 0 {
				x = append([]byte(nil), fr...)
				short := r.Intn(len(enc))
				binary.BigEndian.PutUint64(x[3:], uint64(short))
				if _, left, err, ok := read("short", x); ok {
					if err == nil {
						c.Viol("short:"+k.name, "a frame declaring %d of %d bytes is accepted", short, len(enc))
					} else if used := len(x) + len(tail) - left; used > 11+short {
						c.Viol("overread:"+k.name, "a frame of %d bytes: %d bytes were consumed", 11+short, used)
					}
				}
			}
		}
	}
	c.Sample("exact, wrong magic, wrong type, over-long, padded and too short frames of every message type, each followed by other bytes")
}

// fillers of a body with an exact size: 34a + 114b + 717o
func bodyOfSize(r *rand.Rand, size int) (b ref.Body, ok bool) {
	k := rndKer(r)
	ik := ref.In{}
	for o := 0; o < 34; o++ {
		for q := 0; q < 40; q++ {
			rest := size - 717*o - 114*q
			if rest < 0 || rest%34 != 0 {
				continue
			}
			for i := 0; i < o; i++ {
				b.Outs = append(b.Outs, rndOut(r))
			}
			for i := 0; i < q; i++ {
				k.Fee = uint64(i)
				b.Kers = append(b.Kers, k)
			}
			for i := 0; i < rest/34; i++ {
				binary.BigEndian.PutUint64(ik.Commit[1:], uint64(i))
				b.Ins = append(b.Ins, ik)
			}
			return b, true
		}
	}
	return b, false
}

func c05limits(c *Ctx) {
	r := c.R
	// list limits
	u64 := func(v ...uint64) (b []byte) {
		for _, x := range v {
			b = binary.BigEndian.AppendUint64(b, x)
		}
		return
	}
	limit := func(what string, n int, max int, kind string, enc []byte) {
		x := kindByName(kind).mk()
		c.Case("%s %d", what, n)
		rd := newSrc(enc)
		var err error
		if p := Try(func() { err = x.read(rd) }); p != "" {
			c.Viol("panic:"+what, "%d %s: %s", n, what, p)
			return
		}
		c.Eval(fmt.Sprint(what, n))
		if n <= max && (err != nil || rd.Len() != 0) {
			c.Viol("limit:"+what, "a %s with %d %s (limit %d) is refused: %v", kind, n, what, max, err)
		}
		if n > max && err == nil {
			c.Viol("limit:"+what, "a %s with %d %s (limit %d) is accepted", kind, n, what, max)
		}
	}
	h := rndHdr(r)
	h.EdgeBits = 29
	h.Nonces = rndNonces(r, 29)
	for _, n := range []int{0, 1, 511, 512, 513, 514, 1000, 4096, 65535} {
		limit("headers", n, 512, "headers", append([]byte{byte(n >> 8), byte(n)}, bytes.Repeat(h.Enc(), n)...))
	}
	for n := 0; n < 256; n++ {
		limit("hashes", n, 14, "getheaders", append([]byte{byte(n)}, bytes.Repeat([]byte{7}, 32*n)...))
	}
	for _, n := range []int{0, 1, 255, 256, 257, 258, 512, 1000, 65536, 70000} {
		e := append([]byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}, bytes.Repeat(ref.Addr{IP: []byte{9, 8, 7, 6}, Port: 99}.Enc(), n)...)
		limit("addresses", n, 256, "peeraddrs", e)
	}
	// 1,000,000 short ids, inputs (equal ones keep any order)
	for _, n := range []int{999999, 1000000, 1000001, 1000002} {
		limit("ids", n, 1000000, "compact", append(append(append(h.Enc(), 0, 0), u64(uint64(n))...), make([]byte, 6*n)...))
		in := ref.In{}
		limit("inputs", n, 1000000, "block", append(append(h.Enc(), u64(uint64(n), 0, 0)...), bytes.Repeat(in.Enc(), n)...))
	}
	limit("inputs-tx", 1000001, 1000000, "tx", append(append(make([]byte, 32), u64(1000001, 0, 0)...), make([]byte, 34*1000001)...))
	limit("outputs", 1000001, 1000000, "block", append(append(h.Enc(), u64(0, 1000001, 0)...), make([]byte, 1000)...))
	{
		k := rndKer(r)
		for _, n := range []int{60000, 1000001} {
			limit("kernels", n, 1000000, "block", append(append(h.Enc(), u64(0, 0, uint64(n))...), bytes.Repeat(k.Enc(), n)...))
		}
		limit("kernels-tx", 1000001, 1000000, "tx", append(append(make([]byte, 32), u64(0, 0, 1000001)...), bytes.Repeat(k.Enc(), 1000001)...))
		ou := rndOut(r)
		limit("outputs-tx", 1000001, 1000000, "tx", append(append(make([]byte, 32), u64(0, 1000001, 0)...), bytes.Repeat(ou.Enc(), 3000)...))
	}
	// frame of exactly 20,000,000 bytes, and one more
	for _, size := range []int{19999999, 20000000, 20000001} {
		fixed := len(h.Enc()) + 24
		b, ok := bodyOfSize(r, size-fixed)
		if !ok {
			c.Fail("no block of %d bytes", size)
			continue
		}
		enc := append(h.Enc(), b.EncAsIs()...)
		if len(enc) != size {
			c.Fail("block of %d bytes has %d", size, len(enc))
			continue
		}
		c.Case("frame of %d bytes", size)
		blk := &consensus.Block{}
		rd := bytes.NewReader(append(ref.Frame(ref.TBlock, enc), 1, 2, 3))
		n, err := p2p.ReadMessage(rd, blk)
		c.Eval(fmt.Sprint("frame", size))
		if size <= 20000000 {
			if err != nil || rd.Len() != 3 || n != uint64(size+11) {
				c.Viol("maxframe", "a frame of %d bytes (limit 20,000,000) is refused: n=%d left=%d err=%v", size, n, rd.Len(), err)
			}
		} else if err == nil {
			c.Viol("maxframe", "a frame of %d bytes is accepted", size)
		}
	}
	c.Sample("limits 512/14/256/1,000,000 at, one above and far above; frames of 19,999,999, 20,000,000 and 20,000,001 bytes")
}

// c05live: the same on a running connection.
func c05live(c *Ctx) {
	r := c.R
	type tc struct {
		name string
		raw  []byte
		end  bool
	}
	h := rndHdr(r)
	h.EdgeBits = 29
	h.Nonces = rndNonces(r, 29)
	var cases []tc
	ping := ref.EncPing(5, 6)
	for i := 0; i < 2; i++ {
		x := ref.Frame(ref.TPing, ping)
		x[i] ^= 0x10
		cases = append(cases, tc{"magic", x, true})
	}
	for _, t := range []uint8{ref.THand, ref.TShake, ref.TError, 14, 16, 17, 18, 19, 20, 21, 100, 255} {
		cases = append(cases, tc{fmt.Sprintf("type%d", t), ref.Frame(t, ping), true})
	}
	for _, l := range []uint64{20000001, 1 << 32, 1 << 63, math.MaxUint64} {
		x := ref.Frame(ref.TPing, ping)
		binary.BigEndian.PutUint64(x[3:], l)
		cases = append(cases, tc{fmt.Sprintf("length%d", l), append(x, make([]byte, 64)...), true})
	}
	hs := func(n int) []byte {
		return ref.Frame(ref.THeaders, append([]byte{byte(n >> 8), byte(n)}, bytes.Repeat(h.Enc(), n)...))
	}
	cases = append(cases, tc{"headers512", hs(512), false}, tc{"headers513", hs(513), true})
	loc := func(n int) []byte {
		return ref.Frame(ref.TGetHeaders, append([]byte{byte(n)}, make([]byte, 32*n)...))
	}
	cases = append(cases, tc{"locator14", loc(14), false}, tc{"locator15", loc(15), true}, tc{"locator0", loc(0), false})
	ad := func(n int) []byte {
		var as []ref.Addr
		for i := 0; i < n; i++ {
			as = append(as, ref.Addr{IP: []byte{10, 1, byte(i >> 8), byte(i)}, Port: 5})
		}
		return ref.Frame(ref.TPeerAddrs, ref.EncAddrs(as))
	}
	cases = append(cases, tc{"addrs256", ad(256), false}, tc{"addrs257", ad(257), true})
	// padded frames: refused, or followed correctly by the next message
	pad := func(typ uint8, b []byte) []byte {
		return ref.Frame(typ, append(append([]byte(nil), b...), 1, 2, 3, 4, 5))
	}
	cases = append(cases, tc{"padded-getaddrs", pad(ref.TGetPeerAddrs, []byte{0, 0, 0, 0}), false}, tc{"padded-pong", pad(ref.TPong, ping), false})
	{
		fixed := len(h.Enc()) + 24
		b, ok := bodyOfSize(r, 20000000-fixed)
		if ok {
			cases = append(cases, tc{"block20000000", ref.Frame(ref.TBlock, append(h.Enc(), b.EncAsIs()...)), false})
		}
	}
	for round := 0; c.More(round, 1); round++ {
		for _, t := range cases {
			c.Case("live %s", t.name)
			n := newNode(c, nil)
			st := newStub(c, "tcp4", stubOpt{})
			p, sc := n.direct(c, st)
			if sc == nil {
				return
			}
			sc.sendRaw(t.raw)
			alive := sc.ping(c, 7, 7)
			c.Eval(fmt.Sprint("live", t.name, round))
			if alive && t.end {
				c.Viol("live:"+t.name, "after a message with %s the connection goes on", t.name)
			}
			if !alive && !t.end && t.name[:3] != "pad" {
				c.Viol("live:"+t.name, "a message within the limits (%s) ended the connection", t.name)
			}
			if !alive && !sc.waitEnd(Long) {
				c.Viol("live-hang:"+t.name, "after %s the connection is neither answered nor closed", t.name)
			}
			p.Close()
			st.close()
		}
	}
	c.Sample("wrong magic, unknown types, over-long declarations and list limits over a live connection, each followed by a ping")
}
