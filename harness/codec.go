package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/rand"
	"reflect"
	"runtime"
	"sync"
	"time"

	"github.com/dblokhin/gringo/chain"
	"github.com/dblokhin/gringo/consensus"
	"github.com/dblokhin/gringo/p2p"
	"github.com/yoss22/bulletproofs"

	"verif/ref"
)

// rd adapts the various Read methods.
type rd struct {
	obj  interface{}
	read func(r *src) error
	enc  func() []byte
}

// kindDef is one exported wire type: how to make a case, its canonical bytes, and how to see a
// decoded object as a comparable value.
type kindDef struct {
	name string
	typ  int
	gen  func(r *rand.Rand) (obj interface{ Bytes() []byte }, enc []byte, val interface{})
	mk   func() rd
	val  func(obj interface{}) interface{}
}

func norm(v interface{}) string { return fmt.Sprintf("%#v", v) }

type blockVal struct {
	H ref.Hdr
	B ref.Body
}
type txVal struct {
	Off [32]byte
	B   ref.Body
}

func hashList(hs [][32]byte) (l []consensus.Hash) {
	for _, h := range hs {
		l = append(l, append(consensus.Hash(nil), h[:]...))
	}
	return
}
func fromHashes(l []consensus.Hash) (hs [][32]byte) {
	for _, h := range l {
		var x [32]byte
		copy(x[:], h)
		hs = append(hs, x)
	}
	return
}

func kinds() []kindDef {
	pingGen := func(r *rand.Rand) (td, h uint64) { return rndU64(r), rndU64(r) }
	return []kindDef{
		{"ping", ref.TPing, func(r *rand.Rand) (interface{ Bytes() []byte }, []byte, interface{}) {
			td, h := pingGen(r)
			return &p2p.Ping{TotalDifficulty: consensus.Difficulty(td), Height: h}, ref.EncPing(td, h), [2]uint64{td, h}
		}, func() rd { m := &p2p.Ping{}; return rd{m, func(r *src) error { return m.Read(r) }, m.Bytes} },
			func(o interface{}) interface{} {
				m := o.(*p2p.Ping)
				return [2]uint64{uint64(m.TotalDifficulty), m.Height}
			}},
		{"pong", ref.TPong, func(r *rand.Rand) (interface{ Bytes() []byte }, []byte, interface{}) {
			td, h := pingGen(r)
			return &p2p.Pong{Ping: p2p.Ping{TotalDifficulty: consensus.Difficulty(td), Height: h}}, ref.EncPing(td, h), [2]uint64{td, h}
		}, func() rd { m := &p2p.Pong{}; return rd{m, func(r *src) error { return m.Read(r) }, m.Bytes} },
			func(o interface{}) interface{} {
				m := o.(*p2p.Pong)
				return [2]uint64{uint64(m.TotalDifficulty), m.Height}
			}},
		{"getpeeraddrs", ref.TGetPeerAddrs, func(r *rand.Rand) (interface{ Bytes() []byte }, []byte, interface{}) {
			c := uint32(rndU64(r))
			var w ref.W
			w.U32(c)
			return &p2p.GetPeerAddrs{Capabilities: consensus.Capabilities(c)}, w.B, c
		}, func() rd {
			m := &p2p.GetPeerAddrs{}
			return rd{m, func(r *src) error { return m.Read(r) }, m.Bytes}
		}, func(o interface{}) interface{} { return uint32(o.(*p2p.GetPeerAddrs).Capabilities) }},
		{"error", ref.TError, func(r *rand.Rand) (interface{ Bytes() []byte }, []byte, interface{}) {
			c, s := uint32(rndU64(r)), rndUA(r)
			return &p2p.PeerError{Code: c, Message: s}, ref.EncError(c, s), [2]interface{}{c, s}
		}, func() rd {
			m := &p2p.PeerError{}
			return rd{m, func(r *src) error { return m.Read(r) }, m.Bytes}
		},
			func(o interface{}) interface{} {
				m := o.(*p2p.PeerError)
				return [2]interface{}{m.Code, m.Message}
			}},
		{"peeraddrs", ref.TPeerAddrs, func(r *rand.Rand) (interface{ Bytes() []byte }, []byte, interface{}) {
			n := rndLen(r)
			if r.Intn(6) == 0 {
				n = 256
			}
			var as []ref.Addr
			for i := 0; i < n; i++ {
				as = append(as, rndAddr(r))
			}
			return nil, ref.EncAddrs(as), nil
		}, func() rd {
			m := &p2p.PeerAddrs{}
			return rd{m, func(r *src) error { return m.Read(r) }, m.Bytes}
		},
			func(o interface{}) interface{} { return nil }},
		{"getblock", ref.TGetBlock, func(r *rand.Rand) (interface{ Bytes() []byte }, []byte, interface{}) {
			h := rnd32(r)
			return &p2p.GetBlock{Hash: append(consensus.Hash(nil), h[:]...)}, h[:], h
		}, func() rd {
			m := &p2p.GetBlock{}
			return rd{m, func(r *src) error { return m.Read(r) }, m.Bytes}
		},
			func(o interface{}) interface{} { return fromHashes([]consensus.Hash{o.(*p2p.GetBlock).Hash})[0] }},
		{"getheaders", ref.TGetHeaders, func(r *rand.Rand) (interface{ Bytes() []byte }, []byte, interface{}) {
			var hs [][32]byte
			for i := r.Intn(15); i > 0; i-- {
				hs = append(hs, rnd32(r))
			}
			return &p2p.GetBlockHeaders{Locator: consensus.Locator{Hashes: hashList(hs)}}, ref.EncLocator(hs), hs
		}, func() rd {
			m := &p2p.GetBlockHeaders{}
			return rd{m, func(r *src) error { return m.Read(r) }, m.Bytes}
		}, func(o interface{}) interface{} { return fromHashes(o.(*p2p.GetBlockHeaders).Locator.Hashes) }},
		{"header", ref.THeader, func(r *rand.Rand) (interface{ Bytes() []byte }, []byte, interface{}) {
			h := rndHdr(r)
			return &p2p.BlockHeader{Header: toHdr(h)}, h.Enc(), h
		}, func() rd {
			m := &p2p.BlockHeader{}
			return rd{m, func(r *src) error { return m.Read(r) }, m.Bytes}
		}, func(o interface{}) interface{} { return fromHdr(&o.(*p2p.BlockHeader).Header) }},
		{"headers", ref.THeaders, func(r *rand.Rand) (interface{ Bytes() []byte }, []byte, interface{}) {
			n := rndLen(r)
			var hs []ref.Hdr
			m := &p2p.BlockHeaders{}
			for i := 0; i < n; i++ {
				hs = append(hs, rndHdr(r))
				m.Headers = append(m.Headers, toHdr(hs[i]))
			}
			return m, ref.EncHeaders(hs), hs
		}, func() rd {
			m := &p2p.BlockHeaders{}
			return rd{m, func(r *src) error { return m.Read(r) }, m.Bytes}
		}, func(o interface{}) interface{} {
			var hs []ref.Hdr
			m := o.(*p2p.BlockHeaders)
			for i := range m.Headers {
				hs = append(hs, fromHdr(&m.Headers[i]))
			}
			return hs
		}},
		{"block", ref.TBlock, func(r *rand.Rand) (interface{ Bytes() []byte }, []byte, interface{}) {
			h, b := rndHdr(r), rndBody(r)
			return toBlock(h, b), ref.EncBlock(h, b), blockVal{h, b.Sorted()}
		}, func() rd {
			m := &consensus.Block{}
			return rd{m, func(r *src) error { return m.Read(r) }, m.Bytes}
		}, func(o interface{}) interface{} { h, b := fromBlock(o.(*consensus.Block)); return blockVal{h, b} }},
		{"compact", ref.TCompactBlock, func(r *rand.Rand) (interface{ Bytes() []byte }, []byte, interface{}) {
			c := rndCompact(r)
			return toCompact(c), c.Enc(), c.Sorted()
		}, func() rd {
			m := &consensus.CompactBlock{}
			return rd{m, func(r *src) error { return m.Read(r) }, m.Bytes}
		}, func(o interface{}) interface{} { return fromCompact(o.(*consensus.CompactBlock)) }},
		{"tx", ref.TTransaction, func(r *rand.Rand) (interface{ Bytes() []byte }, []byte, interface{}) {
			off, b := rnd32(r), rndBody(r)
			return toTx(off, b), ref.EncTx(off, b), txVal{off, b.Sorted()}
		}, func() rd {
			m := &consensus.Transaction{}
			return rd{m, func(r *src) error { return m.Read(r) }, m.Bytes}
		}, func(o interface{}) interface{} { off, b := fromTx(o.(*consensus.Transaction)); return txVal{off, b} }},
		{"input", -1, func(r *rand.Rand) (interface{ Bytes() []byte }, []byte, interface{}) {
			x := rndIn(r)
			o := toIn(x)
			return &o, x.Enc(), x
		}, func() rd {
			m := &consensus.Input{}
			return rd{m, func(r *src) error { return m.Read(r) }, m.Bytes}
		},
			func(o interface{}) interface{} { return fromIns(consensus.InputList{*o.(*consensus.Input)})[0] }},
		{"output", -1, func(r *rand.Rand) (interface{ Bytes() []byte }, []byte, interface{}) {
			x := rndOut(r)
			o := toOut(x)
			return &o, x.Enc(), x
		}, func() rd {
			m := &consensus.Output{}
			return rd{m, func(r *src) error { return m.Read(r) }, m.Bytes}
		}, func(o interface{}) interface{} { return fromOuts(consensus.OutputList{*o.(*consensus.Output)})[0] }},
		{"kernel", -1, func(r *rand.Rand) (interface{ Bytes() []byte }, []byte, interface{}) {
			x := rndKer(r)
			o := toKer(x)
			return &o, x.Enc(), x
		}, func() rd {
			m := &consensus.TxKernel{}
			return rd{m, func(r *src) error { return m.Read(r) }, m.Bytes}
		}, func(o interface{}) interface{} { return fromKers(consensus.TxKernelList{*o.(*consensus.TxKernel)})[0] }},
		{"proof", -1, func(r *rand.Rand) (interface{ Bytes() []byte }, []byte, interface{}) {
			h := rndHdr(r)
			return &consensus.Proof{EdgeBits: h.EdgeBits, Nonces: h.Nonces}, h.Enc()[ref.HdrFixed:], h.Nonces
		}, func() rd {
			m := &consensus.Proof{}
			return rd{m, func(r *src) error { return m.Read(r) }, m.Bytes}
		},
			func(o interface{}) interface{} { return o.(*consensus.Proof).Nonces }},
	}
}

// message makes the p2p.Message behind a kind's decoder, if there is one.
func (k kindDef) message() (p2p.Message, rd) {
	x := k.mk()
	m, _ := x.obj.(p2p.Message)
	return m, x
}

func same(a, b interface{}) bool {
	if reflect.DeepEqual(a, b) {
		return true
	}
	return norm(a) == norm(b)
}

func init() {
	register(&Prop{ID: "C01", Min: 3000,
		Rule: "random objects of every message type (boundary integers, graph sizes 1..64, list lengths 0..120 and around the sizes of the counters, twins, IPv4/IPv6, any user agent) encoded by the code and by an independent codec, decoded and compared field by field; plus captured network messages and live handshakes. A case is distinct by its encoding.",
		Jobs: []Job{
			{Name: "encode", Fn: c01encode}, {Name: "decode", Fn: c01decode}, {Name: "vectors", Fn: c01vectors},
			{Name: "wire", Fn: c01wire}, {Name: "sizes", Fn: c01sizes}, {Name: "genesis", Fn: c01genesis},
		}})
	register(&Prop{ID: "C02", Min: 1000,
		Rule: "random blocks, compact blocks and transactions in random in-memory orders; snapshots before and after encoding; concurrent encoders of one object under the race detector; transactions with misordered lists offered to the decoder. Distinct by object and order.",
		Jobs: []Job{
			{Name: "order", Fn: c02order}, {Name: "refuse", Fn: c02refuse}, {Name: "concurrent", Race: true, Fn: c02concurrent},
		}})
	register(&Prop{ID: "C03", Min: 5000,
		Rule: "valid encodings with bits, bytes, lengths and proofs mutated; whatever a decoder accepts is re-encoded and compared with the bytes it consumed. Non-trivial: accepted by the decoder. Distinct by bytes.",
		Jobs: []Job{{Name: "mutate", Fn: c03mutate}, {Name: "targeted", Fn: c03targeted}}})
	register(&Prop{ID: "C04", Min: 10000,
		Rule: "random bytes, mutated valid encodings, every/sampled proper prefix and extreme counts given to every exported decoder and to both handshake roles, with panics, exits, stalls and allocated bytes observed. Distinct by bytes.",
		Jobs: []Job{{Name: "prefix", Fn: c04prefix}, {Name: "garbage", Fn: c04garbage}, {Name: "counts", Fn: c04counts},
			{Name: "handshake", Fn: c04handshake}}})
	register(&Prop{ID: "C05", Min: 500,
		Rule: "frames with right and wrong magic, type and length, followed by more bytes, read with the code's message reader and over live connections; lists at, just above and far above every limit. Distinct by frame.",
		Jobs: []Job{{Name: "frames", Fn: c05frames}, {Name: "limits", Fn: c05limits}, {Name: "live", Fn: c05live}}})
}

func c01encode(c *Ctx) {
	for _, k := range kinds() {
		n := c.N(150)
		if k.name == "headers" || k.name == "block" || k.name == "tx" || k.name == "compact" {
			n = c.N(100)
		}
		for i := 0; i < n; i++ {
			obj, enc, _ := k.gen(c.R)
			if obj == nil {
				continue
			}
			c.Case("encode %s %s", k.name, hx(enc))
			var got []byte
			if p := Try(func() { got = obj.Bytes() }); p != "" {
				c.Viol("encode:"+k.name, "encoding a %s panicked: %s", k.name, p)
				continue
			}
			c.Eval(k.name + string(enc))
			c.Count("encoded."+k.name, 1)
			if !bytes.Equal(got, enc) {
				c.Viol("encode:"+k.name, "%s encodes as %s, the layout requires %s (first difference at byte %d of %d/%d)", k.name, hx(got), hx(enc),
					firstDiff(got, enc), len(got), len(enc))
			}
			if m, ok := obj.(p2p.Message); ok && k.typ >= 0 {
				if int(m.Type()) != k.typ {
					c.Viol("type:"+k.name, "%s has message type %d, the network's is %d", k.name, m.Type(), k.typ)
				}
				var buf bytes.Buffer
				wn, err := p2p.WriteMessage(&buf, m)
				if err != nil || !bytes.Equal(buf.Bytes(), ref.Frame(uint8(k.typ), enc)) {
					c.Viol("frame:"+k.name, "frame of %s is %s (err %v), want %s", k.name, hx(buf.Bytes()), err, hx(ref.Frame(uint8(k.typ), enc)))
				}
				if err == nil && wn != uint64(len(enc)+11) {
					c.Viol("written:"+k.name, "writing a %s reported %d bytes, %d were written", k.name, wn, len(enc)+11)
				}
			}
			if i == 0 {
				c.Sample(map[string]string{"kind": k.name, "wire": hx(enc)})
			}
		}
	}
	// output without proof
	for i := 0; c.More(i, 50); i++ {
		x := rndOut(c.R)
		o := toOut(x)
		c.Eval("bwp" + string(x.Head()))
		if !bytes.Equal(o.BytesWithoutProof(), x.Head()) {
			c.Viol("encode:outputhead", "output without proof encodes as %x, want %x", o.BytesWithoutProof(), x.Head())
		}
		if !bytes.Equal(o.Hash(), x.Hash()) {
			c.Viol("hash:output", "output hash %x, want %x", o.Hash(), x.Hash())
		}
		in := rndIn(c.R)
		ri := toIn(in)
		if !bytes.Equal(ri.Hash(), in.Hash()) {
			c.Viol("hash:input", "input hash %x, want %x", ri.Hash(), in.Hash())
		}
		k := rndKer(c.R)
		rk := toKer(k)
		if !bytes.Equal(rk.Hash(), k.Hash()) {
			c.Viol("hash:kernel", "kernel hash %x, want %x", rk.Hash(), k.Hash())
		}
	}
	// a local time zone must not change the encoding
	for i := 0; c.More(i, 50); i++ {
		h := rndHdr(c.R)
		x := toHdr(h)
		x.Timestamp = x.Timestamp.In(time.FixedZone("z", c.R.Intn(80000)-40000)).Add(time.Duration(c.R.Intn(1e9)))
		c.Eval("tz" + string(h.Enc()))
		if !bytes.Equal(x.Bytes(), h.Enc()) {
			c.Viol("encode:timezone", "a header's time zone or fraction of a second changes its encoding")
		}
	}
}

func firstDiff(a, b []byte) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return i
		}
	}
	return min(len(a), len(b))
}

func c01decode(c *Ctx) {
	for _, k := range kinds() {
		n := c.N(150)
		if k.name == "headers" || k.name == "block" || k.name == "tx" || k.name == "compact" {
			n = c.N(100)
		}
		for i := 0; i < n; i++ {
			_, enc, val := k.gen(c.R)
			c.Case("decode %s %s", k.name, hx(enc))
			tail := make([]byte, c.R.Intn(20))
			c.R.Read(tail)
			x := k.mk()
			br := newSrc(append(append([]byte(nil), enc...), tail...))
			br.dribble(c.R, i%2 == 1)
			var err error
			if p := Try(func() { err = x.read(br) }); p != "" {
				c.Viol("decode:"+k.name, "decoding a valid %s panicked: %s", k.name, p)
				continue
			}
			c.Eval(k.name + string(enc))
			c.Count("decoded."+k.name, 1)
			if err != nil {
				c.Viol("decode:"+k.name, "a valid %s is refused: %v; bytes %s", k.name, err, hx(enc))
				continue
			}
			if used := len(enc) + len(tail) - br.Len(); used != len(enc) {
				c.Viol("consume:"+k.name, "decoding a %s of %d bytes consumed %d", k.name, len(enc), used)
			}
			if val != nil && !same(k.val(x.obj), val) {
				c.Viol("value:"+k.name, "decoded %s differs: got %s want %s", k.name, clip(norm(k.val(x.obj)), 800), clip(norm(val), 800))
			}
			if re := x.enc(); !bytes.Equal(re, enc) {
				c.Viol("reencode:"+k.name, "decoded %s re-encodes as %s, was %s (byte %d)", k.name, hx(re), hx(enc), firstDiff(re, enc))
			}
			// decoding into the same object twice must not mix the two messages
			if k.typ >= 0 {
				m, y := k.message()
				if m != nil {
					fr := ref.Frame(uint8(k.typ), enc)
					rest := []byte("next")
					fb := newSrc(append(append([]byte(nil), fr...), rest...))
					fb.dribble(c.R, i%3 > 0)
					n, err := p2p.ReadMessage(fb, m)
					if err != nil || n != uint64(len(fr)) || fb.Len() != len(rest) {
						c.Viol("readmessage:"+k.name, "reading a framed %s: n=%d (frame %d) left=%d err=%v", k.name, n, len(fr), fb.Len(), err)
					} else if val != nil && !same(k.val(y.obj), val) {
						c.Viol("value:"+k.name, "framed %s decodes differently", k.name)
					}
				}
			}
		}
	}
}

// c01sizes: lists of every length around the sizes of their counters.
func c01sizes(c *Ctx) {
	r := c.R
	// a case is told in closures, its encodings are long
	check := func(name string, n int, m p2p.Message, enc []byte, val interface{}, mk func() rd, get func(interface{}) interface{}) {
		c.Case("%s of %d", name, n)
		c.Eval(fmt.Sprintf("%s %d", name, n))
		c.Count("sized."+name, 1)
		if m != nil {
			if got := m.Bytes(); !bytes.Equal(got, enc) {
				c.Viol("size:"+name, "%d %s are not encoded in the network's layout (byte %d of %d/%d)", n, name, firstDiff(got, enc), len(got), len(enc))
				return
			}
		}
		x := mk()
		br := newSrc(append(append([]byte(nil), enc...), "tail"...))
		if err := x.read(br); err != nil || br.Len() != 4 {
			c.Viol("size:"+name, "%d %s are not decoded: %v, %d bytes left", n, name, err, br.Len()-4)
			return
		}
		if get != nil && !same(get(x.obj), val) {
			c.Viol("size:"+name, "%d %s are decoded differently", n, name)
			return
		}
		if !bytes.Equal(x.enc(), enc) {
			c.Viol("size:"+name, "%d %s, decoded, are encoded differently", n, name)
		}
	}
	ks := map[string]kindDef{}
	for _, k := range kinds() {
		ks[k.name] = k
	}
	for _, n := range []int{0, 1, 2, 127, 128, 129, 254, 255, 256, 257, 300, 383, 510, 511, 512} {
		k := ks["headers"]
		m := &p2p.BlockHeaders{}
		var hs []ref.Hdr
		for i := 0; i < n; i++ {
			hs = append(hs, rndHdr(r))
			m.Headers = append(m.Headers, toHdr(hs[i]))
		}
		check("headers", n, m, ref.EncHeaders(hs), hs, k.mk, k.val)
	}
	for n := 0; n <= 14; n++ {
		var hs [][32]byte
		for i := 0; i < n; i++ {
			hs = append(hs, rnd32(r))
		}
		k := ks["getheaders"]
		check("locators", n, &p2p.GetBlockHeaders{Locator: consensus.Locator{Hashes: hashList(hs)}}, ref.EncLocator(hs), hs, k.mk, k.val)
	}
	for _, n := range []int{0, 1, 127, 128, 129, 254, 255, 256} {
		var as []ref.Addr
		for i := 0; i < n; i++ {
			as = append(as, rndAddr(r))
		}
		k := ks["peeraddrs"]
		check("addresses", n, nil, ref.EncAddrs(as), nil, k.mk, nil)
	}
	for _, n := range []int{0, 1, 127, 128, 255, 256, 257, 4095, 4096, 4097, 65535, 65536, 65537, 99999, 100000} {
		s := make([]byte, n)
		r.Read(s)
		k := ks["error"]
		check("characters", n, &p2p.PeerError{Code: 7, Message: string(s)}, ref.EncError(7, string(s)), [2]interface{}{uint32(7), string(s)}, k.mk, k.val)
	}
	outs := func(n int) (l []ref.Out) {
		for len(l) < n {
			for len(l) < n {
				x := rndOut(r)
				x.Feat = uint8(r.Intn(256))
				l = append(l, x)
			}
			l = uniqueOuts(l)
		}
		return
	}
	kers := func(n int) (l []ref.Ker) {
		for i := 0; i < n; i++ {
			l = append(l, rndKer(r))
		}
		return
	}
	ins := func(n int) (l []ref.In) {
		for i := 0; i < n; i++ {
			x := rndIn(r)
			r.Read(x.Commit[:])
			l = append(l, x)
		}
		return
	}
	for _, n := range []int{1, 127, 128, 129, 200, 254, 255} {
		for what := 0; what < 3; what++ {
			x := ref.Compact{H: rndHdr(r)}
			if what != 0 {
				x.Outs = outs(n)
			}
			if what != 1 {
				x.Kers = kers(n)
			}
			k := ks["compact"]
			check("compact items", n, toCompact(x), x.Enc(), x.Sorted(), k.mk, k.val)
		}
	}
	big := []int{255, 256, 257, 1000, 65535, 65536, 65537}
	for _, n := range big {
		x := ref.Compact{H: rndHdr(r)}
		for i := 0; i < n; i++ {
			var id [6]byte
			r.Read(id[:])
			x.IDs = append(x.IDs, id)
		}
		k := ks["compact"]
		check("short ids", n, toCompact(x), x.Enc(), x.Sorted(), k.mk, k.val)
	}
	for _, n := range []int{127, 128, 255, 256, 257, 600} {
		for what := 0; what < 3; what++ {
			var b ref.Body
			switch what {
			case 0:
				b.Ins = ins(n)
			case 1:
				b.Outs = outs(min(n, 400))
			case 2:
				b.Kers = kers(n)
			}
			h, off := rndHdr(r), rnd32(r)
			check("block items", n, toBlock(h, b), ref.EncBlock(h, b), blockVal{h, b.Sorted()}, ks["block"].mk, ks["block"].val)
			check("tx items", n, toTx(off, b), ref.EncTx(off, b), txVal{off, b.Sorted()}, ks["tx"].mk, ks["tx"].val)
		}
	}
	if c.Thorough {
		for _, n := range []int{65535, 65536, 65537} {
			b := ref.Body{Ins: ins(n)}
			h, off := rndHdr(r), rnd32(r)
			check("block items", n, toBlock(h, b), ref.EncBlock(h, b), blockVal{h, b.Sorted()}, ks["block"].mk, ks["block"].val)
			check("tx items", n, toTx(off, b), ref.EncTx(off, b), txVal{off, b.Sorted()}, ks["tx"].mk, ks["tx"].val)
		}
	}
	c.Sample(map[string]interface{}{"short_ids": big})
}

func c01vectors(c *Ctx) {
	// Testnet4 block 65,927 and a Testnet4 transaction, as other nodes sent them.
	raw := fixture("block65927")
	b := &consensus.Block{}
	rd := bytes.NewReader(raw)
	c.Eval("block65927")
	if err := b.Read(rd); err != nil || rd.Len() != 0 {
		c.Viol("vector:block", "block 65,927 of Testnet4 is not read: %v, %d left", err, rd.Len())
	} else {
		if !bytes.Equal(b.Bytes(), raw) {
			c.Viol("vector:block", "block 65,927 re-encodes differently")
		}
		r := &ref.R{B: raw}
		h, body, err := ref.DecBlock(r)
		if err != nil || r.Left() != 0 {
			c.Fail("the reference codec does not read block 65,927: %v", err)
			return
		}
		gh, gb := fromBlock(b)
		if !same(blockVal{gh, gb}, blockVal{h, body}) {
			c.Viol("vector:block", "block 65,927 decodes differently")
		}
		if id := h.ID(); !bytes.Equal(b.Hash(), id[:]) {
			c.Viol("vector:blockid", "block 65,927 has identity %x, want %x", b.Hash(), id)
		}
		c.Sample(map[string]string{"vector": "block 65,927", "id": hx(b.Hash())})
	}
	raw = fixture("tx")
	tx := &consensus.Transaction{}
	rd = bytes.NewReader(raw)
	c.Eval("tx")
	if err := tx.Read(rd); err != nil || rd.Len() != 0 {
		c.Viol("vector:tx", "captured transaction is not read: %v, %d left", err, rd.Len())
	} else if !bytes.Equal(tx.Bytes(), raw) {
		c.Viol("vector:tx", "captured transaction re-encodes differently at byte %d", firstDiff(tx.Bytes(), raw))
	}
	for _, s := range []string{"0832a3990cd8a497ad280394afeaa5fcbdf02d6e8c86eb7fc47ba6bb25cd8973fd", "092095ceab2c20f9a6109a7b0add8d488b3838dcc007c77a43cbe99a14a81b62e8"} {
		pb, _ := hex.DecodeString(s)
		p := new(bulletproofs.Point)
		c.Eval(s)
		if err := p.Read(bytes.NewReader(pb)); err != nil || !bytes.Equal(p.Bytes(), pb) {
			c.Viol("vector:point", "point %s re-encodes as %x", s, p.Bytes())
		}
	}
}

// c01genesis: the blocks the node has of itself can be sent like any other.
func c01genesis(c *Ctx) {
	for _, g := range []struct {
		name string
		b    *consensus.Block
	}{{"Testnet1", &chain.Testnet1}, {"Testnet2", &chain.Testnet2}, {"Testnet3", &chain.Testnet3}, {"Testnet4", &chain.Testnet4}, {"Mainnet", &chain.Mainnet}} {
		h, body := fromBlock(g.b)
		for i := 0; i < 3; i++ {
			c.Case("genesis block of %s", g.name)
			got, head := g.b.Bytes(), g.b.Header.Bytes()
			c.Eval("genesis" + g.name + fmt.Sprint(i))
			if !bytes.Equal(got, ref.EncBlock(h, body)) || !bytes.Equal(head, h.Enc()) {
				c.Viol("genesis", "the genesis block of %s encodes as %s, the layout requires %s", g.name, hx(got), hx(ref.EncBlock(h, body)))
			}
			list := p2p.BlockHeaders{Headers: []consensus.BlockHeader{g.b.Header}}
			if !bytes.Equal(list.Bytes(), ref.EncHeaders([]ref.Hdr{h})) {
				c.Viol("genesis", "the genesis header of %s encodes as %s in a list", g.name, hx(list.Bytes()))
			}
			if id := h.ID(); !bytes.Equal(g.b.Hash(), id[:]) {
				c.Viol("genesis", "the genesis block of %s has identity %x, want %x", g.name, g.b.Hash(), id)
			}
			x, rd := &consensus.Block{}, bytes.NewReader(got)
			if err := x.Read(rd); err != nil || rd.Len() != 0 {
				c.Viol("genesis", "the genesis block of %s is not read back: %v, %d left", g.name, err, rd.Len())
				continue
			}
			xh, xb := fromBlock(x)
			if !same(blockVal{xh, xb}, blockVal{h, body}) {
				c.Viol("genesis", "the genesis block of %s is read back as %s", g.name, norm(xh))
			}
		}
		c.Count("genesis", 1)
	}
}

// c01wire: the handshake messages, live, and address lists through a node.
func c01wire(c *Ctx) {
	r := c.R
	nn := newNode(c, nil)
	// dialling: our hand, any valid shake
	for i := 0; c.More(i, 25); i++ {
		nt := "tcp4"
		if i%3 == 1 && haveV6() {
			nt = "tcp6"
		}
		sh := ref.Shake{Version: 1, Caps: uint32(r.Intn(8)), TD: rndU64(r), UA: rndUA(r), Genesis: ref.Testnet4Genesis}
		st := newStub(c, nt, stubOpt{shake: func(ref.Hand) []byte { return ref.Frame(ref.TShake, sh.Enc()) }})
		c.Case("dial, shake %s", hx(sh.Enc()))
		p, err := p2p.NewPeer(nn.sy, st.addr)
		c.Eval("shake" + string(sh.Enc()))
		if err != nil {
			c.Viol("wire:shake", "a valid shake is refused: %v; %s", err, hx(sh.Enc()))
			st.close()
			continue
		}
		if p.Info.Version != sh.Version || uint32(p.Info.Capabilities) != sh.Caps || uint64(p.Info.TotalDifficulty) != sh.TD || p.Info.UserAgent != sh.UA {
			c.Viol("wire:shake", "shake %+v recorded as %+v", sh, p.Info)
		}
		sc := st.wait(c, 1)
		if sc == nil {
			continue
		}
		h := sc.hand
		host, port := splitAddr(st.addr)
		if !bytes.Equal(h.Receiver.IP, host) || h.Receiver.Port != port {
			c.Viol("wire:hand", "our hand names the receiver %v:%d, dialled %s", h.Receiver.IP, h.Receiver.Port, st.addr)
		}
		if h.Version != 1 || h.Genesis != ref.Testnet4Genesis || h.UA == "" || len(h.Sender.IP) == 0 {
			c.Viol("wire:hand", "our hand is %+v", h)
		}
		if !bytes.Equal(ref.Frame(ref.THand, h.Enc()), sc.handRaw) {
			c.Viol("wire:hand", "our hand is not in the network's layout: %x", sc.handRaw)
		}
		c.Sample(map[string]string{"hand": hx(sc.handRaw), "shake": hx(sh.Enc())})
		st.close()
	}
	// accepting: any valid hand, our shake
	for i := 0; c.More(i, 40); i++ {
		h := ref.Hand{Version: 1, Caps: uint32(r.Intn(8)), Nonce: r.Uint64(), TD: rndU64(r), Sender: rndAddr(r), Receiver: rndAddr(r), UA: rndUA(r), Genesis: ref.Testnet4Genesis}
		cn := newMemConn(ref.Frame(ref.THand, h.Enc()))
		c.Case("accept, hand %s", hx(h.Enc()))
		c.Eval("hand" + string(h.Enc()))
		p, err := acceptPeer(cn)
		if err != nil {
			c.Viol("wire:hand-in", "a valid hand is refused: %v; %s", err, hx(h.Enc()))
			continue
		}
		if p.Info.Version != 1 || uint32(p.Info.Capabilities) != h.Caps || uint64(p.Info.TotalDifficulty) != h.TD || p.Info.UserAgent != h.UA {
			c.Viol("wire:hand-in", "hand %+v recorded as %+v", h, p.Info)
		}
		if left := cn.left(); left != 0 {
			c.Viol("wire:hand-in", "%d bytes of the hand were left unread", left)
		}
		fr, ok := parseFrame(cn.written())
		if !ok || fr.typ != ref.TShake {
			c.Viol("wire:shake-out", "our answer to a hand is %s", hx(cn.written()))
			continue
		}
		s, err := ref.DecShake(fr.body)
		if err != nil || s.Version != 1 || s.Genesis != ref.Testnet4Genesis || s.UA == "" {
			c.Viol("wire:shake-out", "our shake is %s: %+v %v", hx(cn.written()), s, err)
		}
	}
	// address lists: sent by a peer, added to the table, listed again
	for i := 0; c.More(i, 4); i++ {
		n := newNode(c, nil)
		st := newStub(c, "tcp4", stubOpt{})
		n.add(st.addr)
		sc := n.dial(c, st)
		if sc == nil {
			continue
		}
		var as []ref.Addr
		for k := 1 + r.Intn(200); k > 0; k-- {
			a := rndAddr(r)
			if len(a.IP) == 4 {
				a.IP[0] = byte(1 + r.Intn(200))
			}
			if a.Port == 0 {
				a.Port = 1
			}
			as = append(as, a)
		}
		c.Eval("addrs" + string(ref.EncAddrs(as)))
		sc.send(ref.TPeerAddrs, ref.EncAddrs(as))
		if !sc.ping(c, 1, 1) {
			c.Viol("wire:addrs", "a valid address list of %d entries ended the connection; %s", len(as), hx(ref.EncAddrs(as)))
			continue
		}
		want := map[string]bool{st.addr: true}
		for _, a := range as {
			want[addrString(a)] = true
		}
		got := map[string]bool{}
		for _, a := range n.pool.added() {
			got[a] = true
		}
		for a := range want {
			if !got[a] {
				c.Viol("wire:addrs", "address %s of a received list was not passed on", a)
				break
			}
		}
		for a := range got {
			if !want[a] {
				c.Viol("wire:addrs", "address %s was added but not received", a)
				break
			}
		}
		c.Count("addresses", len(as))
		if len(want) <= 256 {
			enc := n.sy.Pool.Peers(0).Bytes()
			l, err := ref.DecAddrs(enc)
			if err != nil {
				c.Viol("wire:addrs-out", "address reply is not in the network's layout: %v; %s", err, hx(enc))
			} else {
				out := map[string]bool{}
				for _, a := range l {
					out[addrString(a)] = true
				}
				if !reflect.DeepEqual(out, want) {
					c.Viol("wire:addrs-out", "address reply lists %d addresses, table has %d: %v", len(out), len(want), diffKeys(out, want))
				}
			}
		}
		n.stop(c)
		st.close()
	}
}

func diffKeys(a, b map[string]bool) (d []string) {
	for k := range a {
		if !b[k] {
			d = append(d, "+"+k)
		}
	}
	for k := range b {
		if !a[k] {
			d = append(d, "-"+k)
		}
	}
	if len(d) > 6 {
		d = d[:6]
	}
	return
}

// ---- C02 ----

type listObj struct {
	name string
	make func(r *rand.Rand) (obj interface{ Bytes() []byte }, enc []byte, snap func() string)
}

func listObjs() []listObj {
	return []listObj{
		{"block", func(r *rand.Rand) (interface{ Bytes() []byte }, []byte, func() string) {
			h, b := rndHdr(r), shuffleBody(r, rndBody(r))
			o := toBlock(h, b)
			return o, ref.EncBlock(h, b), func() string { h, b := fromBlock(o); return norm(blockVal{h, b}) }
		}},
		{"compact", func(r *rand.Rand) (interface{ Bytes() []byte }, []byte, func() string) {
			x := rndCompact(r)
			r.Shuffle(len(x.IDs), func(i, j int) { x.IDs[i], x.IDs[j] = x.IDs[j], x.IDs[i] })
			o := toCompact(x)
			return o, x.Enc(), func() string { return norm(fromCompact(o)) }
		}},
		{"tx", func(r *rand.Rand) (interface{ Bytes() []byte }, []byte, func() string) {
			off, b := rnd32(r), shuffleBody(r, rndBody(r))
			o := toTx(off, b)
			return o, ref.EncTx(off, b), func() string { off, b := fromTx(o); return norm(txVal{off, b}) }
		}},
	}
}

func c02order(c *Ctx) {
	for _, k := range listObjs() {
		for i := 0; c.More(i, 150); i++ {
			o, enc, snap := k.make(c.R)
			c.Case("%s %s", k.name, hx(enc))
			before := snap()
			g1 := o.Bytes()
			after := snap()
			g2 := o.Bytes()
			c.Eval(k.name + before)
			if before != after {
				c.Viol("mutates:"+k.name, "encoding a %s changed it (its lists were reordered or edited)", k.name)
			}
			if !bytes.Equal(g1, enc) {
				c.Viol("order:"+k.name, "%s is not encoded in ascending hash order (first difference at byte %d of %d/%d)", k.name, firstDiff(g1, enc), len(g1), len(enc))
			}
			if !bytes.Equal(g1, g2) {
				c.Viol("unstable:"+k.name, "encoding a %s twice gives different bytes", k.name)
			}
			if i < 1 {
				c.Sample(map[string]string{"kind": k.name, "wire": hx(enc)})
			}
		}
	}
	// sharing: two objects backed by one slice, and appending to the lists after encoding
	for i := 0; c.More(i, 60); i++ {
		h, b := rndHdr(c.R), shuffleBody(c.R, rndBody(c.R))
		o := toBlock(h, b)
		t := &consensus.Transaction{Inputs: o.Inputs, Outputs: o.Outputs, Kernels: o.Kernels}
		want := norm(blockVal{h, b})
		t.Bytes()
		c.Eval("share" + want)
		gh, gb := fromBlock(o)
		if norm(blockVal{gh, gb}) != want {
			c.Viol("mutates:tx", "encoding a transaction reordered a block sharing its lists")
		}
	}
}

func c02refuse(c *Ctx) {
	try := func(what string, off [32]byte, b ref.Body) {
		enc := append(append([]byte(nil), off[:]...), b.EncAsIs()...)
		c.Case("tx %s %s", what, hx(enc))
		tx := &consensus.Transaction{}
		var err error
		if p := Try(func() { err = tx.Read(bytes.NewReader(enc)) }); p != "" {
			c.Viol("tx-panic", "decoding panicked: %s", p)
			return
		}
		c.Eval(what + string(enc))
		if b.IsSorted() {
			c.Count("sorted", 1)
			if err != nil {
				c.Viol("refuse:"+what, "a transaction with sorted lists is refused: %v", err)
			}
		} else {
			c.Count("unsorted."+what, 1)
			if err == nil {
				c.Viol("refuse:"+what, "a transaction whose %s are not in ascending hash order is accepted; %d/%d/%d items", what, len(b.Ins), len(b.Outs), len(b.Kers))
			}
		}
	}
	for i := 0; c.More(i, 150); i++ {
		off, b := rnd32(c.R), rndBody(c.R)
		for len(b.Ins) < 2 {
			b.Ins = append(b.Ins, rndIn(c.R))
		}
		for len(b.Outs) < 2 {
			b.Outs = uniqueOuts(append(b.Outs, rndOut(c.R)))
		}
		for len(b.Kers) < 2 {
			b.Kers = append(b.Kers, rndKer(c.R))
		}
		s := b.Sorted()
		try("sorted", off, s)
		// one adjacent pair swapped, anywhere
		x := shuffleBody(rand.New(rand.NewSource(0)), ref.Body{})
		cp := func() ref.Body {
			return ref.Body{Ins: append([]ref.In(nil), s.Ins...), Outs: append([]ref.Out(nil), s.Outs...), Kers: append([]ref.Ker(nil), s.Kers...)}
		}
		x = cp()
		k := c.R.Intn(len(x.Ins) - 1)
		x.Ins[k], x.Ins[k+1] = x.Ins[k+1], x.Ins[k]
		try("inputs", off, x)
		x = cp()
		k = c.R.Intn(len(x.Outs) - 1)
		x.Outs[k], x.Outs[k+1] = x.Outs[k+1], x.Outs[k]
		try("outputs", off, x)
		x = cp()
		k = c.R.Intn(len(x.Kers) - 1)
		x.Kers[k], x.Kers[k+1] = x.Kers[k+1], x.Kers[k]
		try("kernels", off, x)
		// the last pair only, and first with last
		x = cp()
		n := len(x.Outs)
		x.Outs[n-1], x.Outs[n-2] = x.Outs[n-2], x.Outs[n-1]
		try("outputs", off, x)
		x = cp()
		n = len(x.Ins)
		x.Ins[n-1], x.Ins[0] = x.Ins[0], x.Ins[n-1]
		try("inputs", off, x)
		try("lists", off, shuffleBody(c.R, s))
		if i == 0 {
			c.Sample(map[string]int{"inputs": len(s.Ins), "outputs": len(s.Outs), "kernels": len(s.Kers)})
		}
	}
	// two items whose hashes agree in their first bytes, alone and among others
	near := nearPairs()
	for i := 0; i < 80; i++ {
		var b ref.Body
		if i%2 == 1 {
			b = rndBody(c.R)
		}
		for k := 0; k < 3; k++ {
			s, what := b, ""
			switch k {
			case 0:
				p := near.ins[c.R.Intn(len(near.ins))]
				s.Ins, what = append(append([]ref.In(nil), b.Ins...), p[0], p[1]), "inputs"
			case 1:
				p := near.outs[c.R.Intn(len(near.outs))]
				s.Outs, what = uniqueOuts(append(append([]ref.Out(nil), b.Outs...), p[0], p[1])), "outputs"
			case 2:
				p := near.kers[c.R.Intn(len(near.kers))]
				s.Kers, what = append(append([]ref.Ker(nil), b.Kers...), p[0], p[1]), "kernels"
			}
			s = s.Sorted()
			off := rnd32(c.R)
			try("sorted", off, s)
			// the pair agreeing in most bytes is the one exchanged
			best, at := -1, 0
			n := map[int]int{0: len(s.Ins), 1: len(s.Outs), 2: len(s.Kers)}[k]
			hash := func(i int) []byte {
				switch k {
				case 0:
					return s.Ins[i].Hash()
				case 1:
					return s.Outs[i].Hash()
				}
				return s.Kers[i].Hash()
			}
			for j := 0; j+1 < n; j++ {
				if d := firstDiff(hash(j), hash(j+1)); d > best && !bytes.Equal(hash(j), hash(j+1)) {
					best, at = d, j
				}
			}
			x := ref.Body{Ins: append([]ref.In(nil), s.Ins...), Outs: append([]ref.Out(nil), s.Outs...), Kers: append([]ref.Ker(nil), s.Kers...)}
			switch k {
			case 0:
				x.Ins[at], x.Ins[at+1] = x.Ins[at+1], x.Ins[at]
			case 1:
				x.Outs[at], x.Outs[at+1] = x.Outs[at+1], x.Outs[at]
			case 2:
				x.Kers[at], x.Kers[at+1] = x.Kers[at+1], x.Kers[at]
			}
			try(what, off, x)
			c.Max("max_common_hash_bytes", int64(best))
		}
	}
	// every mix of short lists, each misordered in every adjacent pair by itself
	for shape := 0; shape < 64; shape++ {
		var b ref.Body
		for k := shape & 3; k > 0; k-- {
			b.Ins = append(b.Ins, rndIn(c.R))
		}
		for len(b.Outs) < shape>>2&3 {
			b.Outs = uniqueOuts(append(b.Outs, rndOut(c.R)))
		}
		for k := shape >> 4; k > 0; k-- {
			b.Kers = append(b.Kers, rndKer(c.R))
		}
		off, s := rnd32(c.R), b.Sorted()
		try("sorted", off, s)
		for k := 0; k+1 < len(s.Ins); k++ {
			x := s
			x.Ins = append([]ref.In(nil), s.Ins...)
			x.Ins[k], x.Ins[k+1] = x.Ins[k+1], x.Ins[k]
			try("inputs", off, x)
		}
		for k := 0; k+1 < len(s.Outs); k++ {
			x := s
			x.Outs = append([]ref.Out(nil), s.Outs...)
			x.Outs[k], x.Outs[k+1] = x.Outs[k+1], x.Outs[k]
			try("outputs", off, x)
		}
		for k := 0; k+1 < len(s.Kers); k++ {
			x := s
			x.Kers = append([]ref.Ker(nil), s.Kers...)
			x.Kers[k], x.Kers[k+1] = x.Kers[k+1], x.Kers[k]
			try("kernels", off, x)
		}
	}
}

func c02concurrent(c *Ctx) {
	for round := 0; c.More(round, 12); round++ {
		for _, k := range listObjs() {
			var o interface{ Bytes() []byte }
			var enc []byte
			for len(enc) < 3000 {
				o, enc, _ = k.make(c.R)
			}
			var wg sync.WaitGroup
			start := make(chan struct{})
			for g := 0; g < 6; g++ {
				wg.Add(1)
				go func(g int) {
					defer wg.Done()
					<-start
					for j := 0; j < 4; j++ {
						var got []byte
						if p := Try(func() { got = o.Bytes() }); p != "" {
							c.Viol("concurrent:"+k.name, "%s", p)
							return
						}
						if !bytes.Equal(got, enc) {
							c.Viol("concurrent:"+k.name, "concurrent encodings of one %s differ", k.name)
						}
						if b, ok := o.(*consensus.Block); ok {
							b.Hash()
							b.Header.Bytes()
						}
						if j%2 == 0 {
							runtime.Gosched()
						}
					}
				}(g)
			}
			close(start)
			wg.Wait()
			c.Eval(k.name + string(enc))
			c.Count("encodings", 24)
		}
	}
	// different objects at once
	for round := 0; c.More(round, 12); round++ {
		var wg sync.WaitGroup
		start := make(chan struct{})
		ks := listObjs()
		for g := 0; g < 6; g++ {
			k := ks[(g+round)%len(ks)]
			o, enc, _ := k.make(c.R)
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for j := 0; j < 8; j++ {
					var got []byte
					if p := Try(func() { got = o.Bytes() }); p != "" {
						c.Viol("concurrent:"+k.name, "%s", p)
						return
					}
					if !bytes.Equal(got, enc) {
						c.Viol("concurrent:"+k.name, "a %s is encoded differently while others are", k.name)
						return
					}
				}
			}()
			c.Eval(k.name + string(enc))
		}
		close(start)
		wg.Wait()
		c.Count("encodings", 48)
	}
	// one block relayed to several peers at once
	for round := 0; c.More(round, 4); round++ {
		h, b := rndHdr(c.R), shuffleBody(c.R, rndBody(c.R))
		for len(b.Kers) < 5 {
			b.Kers = append(b.Kers, rndKer(c.R))
		}
		o := toBlock(h, b)
		want := ref.EncBlock(h, b)
		var wg sync.WaitGroup
		for i := 0; i < 5; i++ {
			st := newStub(c, "tcp4", stubOpt{})
			p, err := p2p.NewPeer(newNode(c, nil).sy, st.addr)
			if err != nil {
				c.Fail("dial: %v", err)
				return
			}
			p.Start()
			sc := st.wait(c, 1)
			if sc == nil {
				return
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				p.SendBlock(o)
				f, ok := sc.recv(30 * time.Second)
				if !ok || f.typ != ref.TBlock || !bytes.Equal(f.body, want) {
					c.Viol("concurrent:relay", "a block sent to five peers at once arrived altered")
				}
				p.Close()
				st.close()
			}()
		}
		wg.Wait()
		c.Eval("relay" + string(want))
	}
	c.Sample("6 goroutines x 4 encodings of one object, per kind and round; 5-peer relays of one block")
}
