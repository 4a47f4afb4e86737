package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/dblokhin/gringo/chain"
	"github.com/dblokhin/gringo/consensus"
	"github.com/dblokhin/gringo/p2p"
	"github.com/sirupsen/logrus"

	"verif/ref"
)

// msgKinds are the messages a peer may send after the handshake and expect to be understood.
var msgKinds = []uint8{ref.TPing, ref.TPong, ref.TGetPeerAddrs, ref.TPeerAddrs, ref.TGetHeaders, ref.THeader, ref.THeaders,
	ref.TGetBlock, ref.TBlock, ref.TGetCompactBlock, ref.TCompactBlock, ref.TTransaction}

// harmlessAddrs are addresses no table admits.
func harmlessAddrs(r *rand.Rand) []ref.Addr {
	var as []ref.Addr
	n := r.Intn(6)
	if r.Intn(20) == 0 {
		n = []int{255, 256}[r.Intn(2)]
	}
	for ; n > 0; n-- {
		ip := make([]byte, []int{4, 16}[r.Intn(2)])
		port := uint16(1 + r.Intn(65535))
		switch r.Intn(5) {
		case 0: // a multicast address
			r.Read(ip)
			if ip[0] = 230; len(ip) == 16 {
				ip[0], ip[1] = 0xff, []byte{1, 2, 5, 8, 0x0e, 0x1e}[r.Intn(6)]
			}
		case 1: // the loopback interface
			if port, ip[len(ip)-1] = 0, 1; len(ip) == 4 {
				ip[0] = 127
			}
		case 2: // nothing specified
			port = 0
		case 3: // any address
			r.Read(ip)
			port = 0
		default: // an IPv4 address that looks like an IPv6 one, link-local, private and documentation addresses
			ip = [][]byte{{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff, 230, 1, 2, 3}, {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff, 127, 0, 0, 1},
				{0xfe, 0x80, 15: 1}, {0xfd, 15: 1}, {0x20, 1, 0xd, 0xb8, 15: 1}, {10, 0, 0, 1}, {192, 168, 0, 1}, {169, 254, 1, 1}, {255, 255, 255, 255}, {1, 15: 0}}[r.Intn(10)]
			port = 0
		}
		as = append(as, ref.Addr{IP: ip, Port: port})
	}
	return as
}

func smallBody(r *rand.Rand) (b ref.Body) {
	for i := r.Intn(3); i > 0; i-- {
		b.Ins = append(b.Ins, rndIn(r))
	}
	for i := r.Intn(3); i > 0; i-- {
		b.Outs = append(b.Outs, rndOut(r))
	}
	for i := r.Intn(3); i > 0; i-- {
		b.Kers = append(b.Kers, rndKer(r))
	}
	b.Outs = uniqueOuts(b.Outs)
	return
}

// nrmHdr is a header every decoder takes.
func nrmHdr(r *rand.Rand) ref.Hdr {
	h := rndHdr(r)
	h.EdgeBits = []uint8{29, 30, 31}[r.Intn(3)]
	for i := range h.Nonces {
		h.Nonces[i] = r.Uint32() >> 3
	}
	return h
}

// validBytes makes the body of a well-formed message.
func validBytes(r *rand.Rand, typ uint8) []byte {
	switch typ {
	case ref.TPing, ref.TPong:
		return ref.EncPing(rndU64(r), rndU64(r))
	case ref.TGetPeerAddrs:
		return []byte{0, 0, 0, byte(r.Intn(16))}
	case ref.TPeerAddrs:
		return ref.EncAddrs(harmlessAddrs(r))
	case ref.TGetHeaders:
		var hs [][32]byte
		for n := r.Intn(15); n > 0; n-- {
			hs = append(hs, rnd32(r))
		}
		return ref.EncLocator(hs)
	case ref.THeader:
		h := nrmHdr(r)
		return h.Enc()
	case ref.THeaders:
		var hs []ref.Hdr
		for n := r.Intn(6); n > 0; n-- {
			hs = append(hs, nrmHdr(r))
		}
		return ref.EncHeaders(hs)
	case ref.TGetBlock:
		h := rnd32(r)
		return h[:]
	case ref.TBlock:
		return ref.EncBlock(nrmHdr(r), smallBody(r))
	case ref.TCompactBlock:
		c := rndCompact(r)
		c.H = nrmHdr(r)
		return c.Enc()
	case ref.TTransaction:
		return ref.EncTx(rnd32(r), smallBody(r))
	case ref.TGetCompactBlock:
		h := rnd32(r)
		return h[:]
	}
	return nil
}

// ---- P01 ----

// hostile makes one piece of a hostile stream. aligned tells whether the stream still
// stands at the start of a frame afterwards, for a reader that goes on.
func hostile(r *rand.Rand) (what string, b []byte, aligned bool) {
	typ := msgKinds[r.Intn(len(msgKinds))]
	body := validBytes(r, typ)
	switch r.Intn(16) {
	case 0, 1, 2, 3:
		return fmt.Sprintf("valid %d", typ), ref.Frame(typ, body), true
	case 4, 5:
		w, x := mutate(r, append(body, 0)[:len(body)])
		return fmt.Sprintf("type %d %s", typ, w), ref.Frame(typ, x), true
	case 6:
		return fmt.Sprintf("empty %d", typ), ref.Frame(typ, nil), true
	case 7:
		t := uint8(r.Intn(256))
		return fmt.Sprintf("type %d with the body of %d", t, typ), ref.Frame(t, body), true
	case 8:
		n := 0
		if len(body) > 0 {
			n = r.Intn(len(body))
		}
		return fmt.Sprintf("type %d body cut to %d of %d", typ, n, len(body)), ref.Frame(typ, body[:n]), true
	case 9:
		x := make([]byte, r.Intn(200))
		r.Read(x)
		return fmt.Sprintf("type %d body and %d bytes", typ, len(x)), ref.Frame(typ, append(body, x...)), true
	case 10: // no magic
		f := ref.Frame(typ, body)
		f[r.Intn(2)] ^= byte(1 + r.Intn(255))
		return "wrong magic", f, true
	case 11: // counts and lengths that lie
		x := append([]byte(nil), body...)
		for i := 0; i < 8 && i < len(x); i++ {
			x[i] = 0xff
		}
		return fmt.Sprintf("type %d with huge counts", typ), ref.Frame(typ, x), true
	case 12:
		x := make([]byte, 1+r.Intn(100))
		r.Read(x)
		return "garbage", x, false
	case 13: // declared length too big
		f := ref.Frame(typ, body)
		binary.BigEndian.PutUint64(f[3:], []uint64{ref.MaxMsg + 1, 1 << 31, 1 << 32, 1 << 40, 1 << 62, 1 << 63, 1<<64 - 1}[r.Intn(7)])
		return "oversized", f, true
	case 14: // half a frame
		f := ref.Frame(typ, body)
		return "half frame", f[:1+r.Intn(len(f)-1)], false
	}
	x := make([]byte, 1+r.Intn(400))
	r.Read(x)
	t := uint8(r.Intn(24))
	return fmt.Sprintf("type %d of random bytes", t), ref.Frame(t, x), true
}

// healthy checks that a bystander is served: pings, address requests, pool calls.
func healthy(c *Ctx, n *node, sc *sconn, after string) bool {
	if !sc.ping(c, 5, 6) {
		c.Viol("wedged:ping", "a bystander's ping is not answered after %s\n%s", after, clip(stacks(), 2500))
		return false
	}
	sc.send(ref.TGetPeerAddrs, []byte{0, 0, 0, 0})
	if _, ok := sc.recvType(ref.TPeerAddrs, Long); !ok {
		c.Viol("wedged:addrs", "a bystander's address request is not answered after %s\n%s", after, clip(stacks(), 2500))
		return false
	}
	if ok, p := Guard(Long, func() { n.sy.Pool.Peers(0); n.sy.Pool.Add("127.0.0.1:0"); n.sy.Pool.PeerInfo("127.0.0.1:1") }); !ok || p != "" {
		c.Viol("wedged:pool", "the pool does not answer after %s %s", after, p)
		return false
	}
	c.Count("bystander_served", 1)
	return true
}

func p01bytes(opt *nodeOpt, debugLog bool, n0 int) func(*Ctx) {
	return func(c *Ctx) {
		if debugLog {
			logrus.SetLevel(logrus.DebugLevel)
		}
		n := newNode(c, opt)
		if opt == nil || opt.chain == nil {
			bs := synthChain(c.R, 3, 4)
			for _, b := range bs {
				n.ch.blocks[string(b.Hash())] = b
			}
			n.ch.headers = func(l consensus.Locator) []consensus.BlockHeader {
				var hs []consensus.BlockHeader
				for _, b := range bs[:len(l.Hashes)%5] {
					hs = append(hs, b.Header)
				}
				return hs
			}
			refuse := subRand(c.R)
			var rmu sync.Mutex
			verdict := func() error {
				rmu.Lock()
				defer rmu.Unlock()
				if refuse.Intn(2) == 0 {
					return refusal()
				}
				return nil
			}
			n.ch.onHdrs = func([]consensus.BlockHeader) error { return verdict() }
			n.ch.onBlock = func(*consensus.Block) error { return verdict() }
			n.mp.on = func(*consensus.Transaction) error { return verdict() }
		}
		by := newStub(c, "tcp4", stubOpt{})
		_, bsc := n.direct(c, by)
		if bsc == nil {
			return
		}
		for i := 0; c.More(i, n0); i++ {
			st := newStub(c, "tcp4", stubOpt{})
			p, sc := n.direct(c, st)
			if sc == nil {
				st.close()
				return
			}
			var names []string
			var raw []byte
			aligned := true
			if c.R.Intn(2) == 0 { // a peer that behaves, at first
				for k := c.R.Intn(12); k > 0; k-- {
					typ := msgKinds[c.R.Intn(len(msgKinds))]
					names = append(names, fmt.Sprintf("valid %d", typ))
					raw = append(raw, ref.Frame(typ, validBytes(c.R, typ))...)
				}
			}
			for k := 1 + c.R.Intn(10); k > 0; k-- {
				w, b, al := hostile(c.R)
				names = append(names, w)
				raw = append(raw, b...)
				if !al {
					aligned = false
					break
				}
			}
			big := i%40 == 7
			if big { // the largest frame there may be
				names = append(names, "20 MB")
				b := make([]byte, ref.MaxMsg)
				copy(b, []byte{0xff, 0xff, 0xff, 0xff})
				raw = append(ref.Frame(msgKinds[c.R.Intn(len(msgKinds))], b), raw...)
			}
			end := c.R.Intn(5)
			if !aligned && end == 0 {
				end = 1
			}
			// the first message of each history is also tried alone
			desc := fmt.Sprintf("%v end %d", names, end)
			c.Case("%s raw %s", desc, hx(raw))
			p.SendPing() // something of the node's own under way
			sc.sendRaw(raw)
			tcp := sc.Conn.(*net.TCPConn)
			switch end {
			case 1:
				tcp.CloseWrite()
			case 2:
				tcp.SetLinger(0)
				tcp.Close()
			case 3:
				tcp.Close()
			case 4:
				if aligned {
					p.Close()
				} else {
					tcp.CloseWrite()
				}
			default:
				if !sc.ping(c, 1, 1) {
					if !sc.waitEnd(Long) {
						c.Viol("limbo", "the connection is neither closed nor answered after %s", desc)
					}
					c.Count("closed", 1)
				} else {
					c.Count("answered", 1)
				}
			}
			if end != 0 {
				if ok, _ := Guard(Long, p.WaitForDisconnect); !ok {
					c.Viol("stuck", "the connection does not end after %s\n%s", desc, clip(stacks(), 3000))
					return
				}
				c.Count("ended", 1)
			}
			if i%4 == 0 || big {
				if !healthy(c, n, bsc, desc) {
					return
				}
			}
			c.Eval(string(raw))
			c.Sample(desc)
			p.Close()
			st.close()
		}
		healthy(c, n, bsc, "all hostile connections")
		by.close()
	}
}

func p01handshake(c *Ctx) {
	n := newNode(c, nil)
	by := newStub(c, "tcp4", stubOpt{})
	_, bsc := n.direct(c, by)
	if bsc == nil {
		return
	}
	one := func(raw []byte, desc string) {
		c.Case("shake %s %s", desc, hx(raw))
		st := newStub(c, "tcp4", stubOpt{shake: func(ref.Hand) []byte { return nil }})
		defer st.close()
		go func() {
			if !Wait(Long, func() bool { st.mu.Lock(); defer st.mu.Unlock(); return len(st.raw) > 0 }) {
				return
			}
			st.mu.Lock()
			cn := st.raw[0]
			st.mu.Unlock()
			cn.Write(raw)
			cn.(*net.TCPConn).CloseWrite()
		}()
		ok, p := Guard(Long, func() {
			if pr, err := p2p.NewPeer(n.sy, st.addr); err == nil {
				pr.Start()
				pr.Close()
				pr.WaitForDisconnect()
				c.Count("shake_taken", 1)
			} else {
				c.Count("shake_refused", 1)
			}
		})
		if !ok {
			c.Viol("handshake:stuck", "dialling a peer that answers %s does not return", desc)
		} else if p != "" {
			c.Viol("handshake:panic", "dialling a peer that answers %s: %s", desc, p)
		}
		c.Eval("s" + string(raw))
	}
	two := func(raw []byte, desc string) {
		c.Case("hand %s %s", desc, hx(raw))
		ok, p := Guard(Long, func() {
			if pr, err := acceptPeer(newMemConn(raw)); err == nil && pr != nil {
				c.Count("hand_taken", 1)
			} else {
				c.Count("hand_refused", 1)
			}
		})
		if !ok {
			c.Viol("accept:stuck", "accepting %s does not return", desc)
		} else if p != "" {
			c.Viol("accept:panic", "accepting %s: %s", desc, p)
		}
		c.Eval("h" + string(raw))
	}
	for i := 0; c.More(i, 400); i++ {
		good := goodShake(rndU64(c.R), c.R.Uint32())
		hd := ref.Frame(ref.THand, ref.Hand{Version: 1, Caps: 7, Nonce: c.R.Uint64(), TD: rndU64(c.R), Sender: rndAddr(c.R), Receiver: rndAddr(c.R),
			UA: rndUA(c.R), Genesis: ref.Testnet4Genesis}.Enc())
		mut := func(b []byte) (string, []byte) {
			switch c.R.Intn(6) {
			case 0:
				return "cut", b[:c.R.Intn(len(b))]
			case 1:
				w, x, _ := hostile(c.R)
				return w, x
			case 2: // lengths inside
				x := append([]byte(nil), b...)
				at := 11 + c.R.Intn(len(b)-11-8)
				binary.BigEndian.PutUint64(x[at:], rndU64(c.R))
				return "length", x
			case 3:
				x := append([]byte(nil), b...)
				binary.BigEndian.PutUint64(x[3:], rndU64(c.R))
				return "frame length", x
			}
			return mutate(c.R, b)
		}
		w, x := mut(good)
		one(x, w)
		w, x = mut(hd)
		two(x, w)
		if i%20 == 0 && !healthy(c, n, bsc, "handshakes") {
			return
		}
	}
	by.close()
}

// p01ban bans peers in the middle of their floods.
func p01ban(c *Ctx) {
	n := newNode(c, nil)
	n.ch.headers = func(consensus.Locator) []consensus.BlockHeader {
		return []consensus.BlockHeader{toHdr(nrmHdr(rand.New(rand.NewSource(1))))}
	}
	n.ch.onBlock = func(*consensus.Block) error { return refusal() }
	by := newStub(c, "tcp4", stubOpt{})
	_, bsc := n.direct(c, by)
	if bsc == nil {
		return
	}
	for i := 0; c.More(i, 150); i++ {
		st := newStub(c, "tcp4", stubOpt{})
		p, sc := n.direct(c, st)
		if sc == nil {
			return
		}
		var raw []byte
		r := subRand(c.R)
		for k := 0; k < 60; k++ {
			typ := msgKinds[r.Intn(len(msgKinds))]
			if typ == ref.TBlock && r.Intn(8) > 0 {
				typ = ref.TPing
			}
			raw = append(raw, ref.Frame(typ, validBytes(r, typ))...)
		}
		c.Case("ban amid flood %d", i)
		var wg sync.WaitGroup
		wg.Add(2)
		go func() { defer wg.Done(); sc.sendRaw(raw) }()
		wait := time.Duration(c.R.Intn(3000)) * time.Microsecond
		go func() { defer wg.Done(); time.Sleep(wait); n.sy.Pool.Ban(st.addr) }()
		if ok, _ := Guard(Long, wg.Wait); !ok {
			c.Viol("ban:stuck", "a ban during a flood does not return\n%s", clip(stacks(), 3000))
			return
		}
		if ok, _ := Guard(Long, p.WaitForDisconnect); !ok {
			c.Viol("ban:open", "a banned peer's connection does not end\n%s", clip(stacks(), 3000))
			return
		}
		if i%5 == 0 && !healthy(c, n, bsc, "a ban amid a flood") {
			return
		}
		c.Eval(fmt.Sprintf("%d", i))
		c.Count("frames_sent", 60)
		st.close()
	}
	healthy(c, n, bsc, "all bans")
	by.close()
}

// p01amid takes a peer away (or replaces its record) in the very middle of
// the handling of its message.
func p01amid(c *Ctx) {
	n := newNode(c, nil)
	by := newStub(c, "tcp4", stubOpt{})
	_, bsc := n.direct(c, by)
	if bsc == nil {
		return
	}
	asked := []struct {
		typ  uint8
		what string
	}{{ref.TPing, "td"}, {ref.TPing, "height"}, {ref.TGetHeaders, "headers"}, {ref.THeader, "newheaders"}, {ref.THeaders, "newheaders"},
		{ref.TGetBlock, "getblock"}, {ref.TBlock, "newblock"}, {ref.TBlock, "height"}, {ref.TTransaction, "tx"}}
	acts := []struct {
		name string
		fn   func(*p2p.Peer, string)
	}{{"ban", func(_ *p2p.Peer, a string) { n.sy.Pool.Ban(a) }},
		{"close", func(p *p2p.Peer, _ string) { p.Close() }},
		{"propagation", func(_ *p2p.Peer, a string) {
			n.sy.Pool.Ban(a)
			n.sy.Pool.PropagateBlock(toBlock(nrmHdr(rand.New(rand.NewSource(1))), ref.Body{}))
		}}}
	for i := 0; c.More(i, 5*len(asked)*len(acts)); i++ {
		a, act := asked[i%len(asked)], acts[i/len(asked)%len(acts)]
		st := newStub(c, "tcp4", stubOpt{})
		p, sc := n.direct(c, st)
		if sc == nil {
			return
		}
		verdict := refusal()
		if c.R.Intn(3) > 0 {
			verdict = nil
		}
		hit := make(chan bool, 1)
		var once sync.Once
		during := func(what string) {
			if what == a.what {
				once.Do(func() {
					// the node may hold what the act needs, so wait only a while
					Guard(time.Second, func() { act.fn(p, st.addr) })
					hit <- true
				})
			}
		}
		h := nrmHdr(c.R)
		n.ch.mu.Lock()
		n.ch.during = during
		n.ch.onBlock = func(*consensus.Block) error { return verdict }
		n.ch.onHdrs = func([]consensus.BlockHeader) error { return verdict }
		n.ch.height = h.Height
		n.ch.mu.Unlock()
		n.mp.mu.Lock()
		n.mp.on = func(*consensus.Transaction) error { during("tx"); return verdict }
		n.mp.mu.Unlock()
		body := validBytes(c.R, a.typ)
		if a.typ == ref.TBlock {
			body = ref.EncBlock(h, smallBody(c.R))
		}
		c.Case("%s inside the question %q of message %d, answered %v", act.name, a.what, a.typ, verdict)
		sc.send(a.typ, body)
		sc.send(ref.TPing, ref.EncPing(1, 2))
		reached := true
		select {
		case <-hit:
			c.Count("reached", 1)
		case <-time.After(2 * time.Second):
			reached = false // this version does not ask that
		}
		n.ch.mu.Lock()
		n.ch.during = nil
		n.ch.mu.Unlock()
		n.mp.mu.Lock()
		n.mp.on = nil
		n.mp.mu.Unlock()
		if !reached {
			p.Close()
		}
		if ok, _ := Guard(Long, p.WaitForDisconnect); !ok {
			c.Viol("amid:open", "the connection of a peer taken away inside its message does not end\n%s", clip(stacks(), 3000))
			return
		}
		if !healthy(c, n, bsc, act.name+" inside a message") {
			return
		}
		c.Eval(fmt.Sprintf("%s %s %d %v", act.name, a.what, a.typ, verdict))
		st.close()
	}
	by.close()
}

// p01real runs hostile traffic against the real chain.
func p01real(c *Ctx) {
	gen := chain.Testnet4
	bs := append([]*consensus.Block{&gen}, synthChain(c.R, 1, 30)...)
	st := newStore(bs...)
	ch := chain.New(&gen, st)
	p01bytes(&nodeOpt{chain: ch}, false, 200)(c)
	// everything stored may be asked for
	n := newNode(c, &nodeOpt{chain: ch})
	sb := newStub(c, "tcp4", stubOpt{})
	_, sc := n.direct(c, sb)
	if sc == nil {
		return
	}
	for i, b := range bs {
		c.Case("request for the stored block %d", i)
		sc.send(ref.TGetBlock, b.Hash())
		if _, ok := sc.recvType(ref.TBlock, Long); !ok {
			c.Viol("real:block", "the stored block of height %d is not served", b.Header.Height)
			return
		}
		var h [32]byte
		copy(h[:], b.Hash())
		sc.send(ref.TGetHeaders, ref.EncLocator([][32]byte{h}))
		if _, ok := sc.recvType(ref.THeaders, Long); !ok {
			c.Viol("real:headers", "a request for the headers after %d is not answered", b.Header.Height)
			return
		}
		c.Eval(fmt.Sprintf("real%d", i))
	}
	sb.close()
}

// ---- P02 ----

// hdrsFor is the scripted chain's answer to a locator.
func hdrsFor(loc [][32]byte) []ref.Hdr {
	seed := int64(len(loc))
	for _, h := range loc {
		seed = seed*1000003 + int64(binary.BigEndian.Uint64(h[:8])>>1)
	}
	r := rand.New(rand.NewSource(seed))
	var hs []ref.Hdr
	n := r.Intn(6)
	if r.Intn(12) == 0 {
		n = 512
	}
	for ; n > 0; n-- {
		hs = append(hs, nrmHdr(r))
	}
	return hs
}

type ask struct {
	raw  []byte
	want *frame // nil: no reply
	any  string // "addrs": any order of the expected addresses
	kind string
}

func addrSet(b []byte) (string, error) {
	as, err := ref.DecAddrs(b)
	if err != nil {
		return "", err
	}
	var l []string
	for _, a := range as {
		l = append(l, addrString(a))
	}
	sort.Strings(l)
	return strings.Join(l, " "), nil
}

func p02model(real bool) func(*Ctx) {
	return func(c *Ctx) {
		for round := 0; c.More(round, 14); round++ {
			p02round(c, round, real)
			if c.Violated() {
				return
			}
		}
	}
}

func p02round(c *Ctx, round int, real bool) {
	var n *node
	var rch *chain.Chain
	blocks := map[[32]byte][]byte{}
	var known [][32]byte
	var td, height uint64
	if real {
		bs := synthChain(c.R, uint64(c.R.Intn(5)), 1+c.R.Intn(600))
		for i, b := range bs {
			if i%5 == 0 {
				x := toBlock(fromHdr(&b.Header), smallBody(c.R))
				b.Inputs, b.Outputs, b.Kernels = x.Inputs, x.Outputs, x.Kernels
			}
		}
		rch = chain.New(bs[0], newStore(bs...))
		n = newNode(c, &nodeOpt{chain: rch})
		for _, b := range bs {
			var h [32]byte
			copy(h[:], b.Hash())
			hd, body := fromBlock(b)
			blocks[h] = ref.EncBlock(hd, body)
			known = append(known, h)
		}
		tip := bs[len(bs)-1].Header
		td, height = uint64(tip.TotalDifficulty), tip.Height
	} else {
		n = newNode(c, nil)
		td, height = rndU64(c.R), rndU64(c.R)
		n.ch.td, n.ch.height = td, height
		n.ch.headers = func(l consensus.Locator) []consensus.BlockHeader {
			var loc [][32]byte
			for _, h := range l.Hashes {
				var x [32]byte
				copy(x[:], h)
				loc = append(loc, x)
			}
			var hs []consensus.BlockHeader
			for _, h := range hdrsFor(loc) {
				hs = append(hs, toHdr(h))
			}
			return hs
		}
		for k := 0; k < 12; k++ {
			h := nrmHdr(c.R)
			b := rndBody(c.R)
			id := h.ID()
			n.ch.blocks[string(id[:])] = toBlock(h, b)
			blocks[id] = ref.EncBlock(h, b)
			known = append(known, id)
		}
	}
	nconn := 1 + c.R.Intn(4)
	var stubs []*stub
	var conns []*sconn
	for k := 0; k < nconn; k++ {
		st := newStub(c, "tcp4", stubOpt{})
		stubs = append(stubs, st)
		_, sc := n.direct(c, st)
		if sc == nil {
			return
		}
		conns = append(conns, sc)
	}
	var table []string
	for _, st := range stubs {
		table = append(table, st.addr)
	}
	for k := c.R.Intn(20); k > 0; k-- {
		a := fmt.Sprintf("10.%d.%d.%d:%d", c.R.Intn(256), c.R.Intn(256), c.R.Intn(256), 1+c.R.Intn(65000))
		n.add(a)
		table = append(table, a)
	}
	sort.Strings(table)
	allAddrs := strings.Join(uniq(table), " ")

	var wg sync.WaitGroup
	for k := range conns {
		sc, r := conns[k], subRand(c.R)
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			var seq []ask
			var kinds []string
			for i := 40 + r.Intn(80); i > 0; i-- {
				seq = append(seq, p02ask(r, td, height, blocks, known, allAddrs, rch))
			}
			if r.Intn(3) == 0 { // one kind again and again
				q := seq[0]
				for i := 0; i < 30; i++ {
					seq = append(seq, q)
				}
			}
			// the barrier
			seq = append(seq, ask{raw: ref.Frame(ref.TPing, ref.EncPing(1, 2)), want: &frame{typ: ref.TPong, body: ref.EncPing(td, height)}, kind: "ping"})
			var raw []byte
			for _, q := range seq {
				raw = append(raw, q.raw...)
				kinds = append(kinds, q.kind)
			}
			go func(chunk int, r *rand.Rand) {
				for len(raw) > 0 {
					m := len(raw)
					if chunk > 0 {
						m = min(m, 1+r.Intn(chunk))
					}
					if sc.sendRaw(raw[:m]) != nil {
						return
					}
					raw = raw[m:]
				}
			}([]int{0, 0, 7, 300, 5000}[r.Intn(5)], subRand(r))
			for i, q := range seq {
				if q.want == nil {
					continue
				}
				f, ok := sc.recv(Long)
				if !ok {
					c.Viol("missing:"+q.kind, "request %d of %d (%s) is not answered; connection ended %v", i, len(seq), q.kind, sc.isEnded())
					return
				}
				if f.typ != q.want.typ {
					c.Viol("order:"+q.kind, "request %d of %d (%s, after %v) is answered with a message of type %d", i, len(seq), q.kind, kinds[max(0, i-4):i], f.typ)
					return
				}
				if q.any != "" {
					got, err := addrSet(f.body)
					if err != nil || got != q.any {
						if q.any == "none" && err == nil && got == "" {
							continue
						}
						c.Viol("content:"+q.kind, "address request %d: got %s (%v), not %s", i, got, err, q.any)
						return
					}
				} else if !bytes.Equal(f.body, q.want.body) {
					c.Viol("content:"+q.kind, "request %d of %d (%s) on %d connections: answer %s, not %s", i, len(seq), q.kind, nconn, hx(f.body), hx(q.want.body))
					return
				}
				c.Count("reply_"+q.kind, 1)
			}
			// nothing beyond: one more barrier
			if fs, ok := sc.drain(c, 1, 2); !ok || len(fs) > 0 {
				c.Viol("extra", "%d messages came that nobody asked for (pong came: %v), first type %v", len(fs), ok, frameTypes(fs))
				return
			}
			c.Eval(fmt.Sprintf("%d/%d/%v", round, k, kinds))
			c.Count("sequences", 1)
			if k == 0 {
				c.Sample(map[string]interface{}{"connections": nconn, "first": kinds[:20]})
			}
		}(k)
	}
	wg.Wait()
	for _, st := range stubs {
		st.close()
	}
}

func frameTypes(fs []frame) (l []uint8) {
	for i, f := range fs {
		if i < 8 {
			l = append(l, f.typ)
		}
	}
	return
}

func uniq(s []string) (l []string) {
	for i, x := range s {
		if i == 0 || x != s[i-1] {
			l = append(l, x)
		}
	}
	return
}

// nearHash alters one bit of a hash, often in its first or last bytes.
func nearHash(r *rand.Rand, h [32]byte) [32]byte {
	h[[]int{0, 31, 15, 16, 7, 8, r.Intn(32)}[r.Intn(7)]] ^= 1 << uint(r.Intn(8))
	return h
}

func p02ask(r *rand.Rand, td, height uint64, blocks map[[32]byte][]byte, known [][32]byte, addrs string, rch *chain.Chain) ask {
	switch r.Intn(14) {
	case 0, 1, 2:
		// of any state, also one like our own
		a, b := rndU64(r), rndU64(r)
		if k := r.Intn(4); k < 2 {
			a = []uint64{td, td, td - 1, td + 1}[r.Intn(4)]
			if k == 0 {
				b = []uint64{height, height, height - 1, height + 1}[r.Intn(4)]
			}
		} else if k == 2 {
			b = []uint64{height, height, height - 1, height + 1}[r.Intn(4)]
		}
		return ask{raw: ref.Frame(ref.TPing, ref.EncPing(a, b)), want: &frame{typ: ref.TPong, body: ref.EncPing(td, height)}, kind: "ping"}
	case 3, 4:
		var loc [][32]byte
		for n := r.Intn(15); n > 0; n-- {
			if rch != nil && r.Intn(2) == 0 {
				loc = append(loc, known[r.Intn(len(known))])
			} else if r.Intn(3) == 0 {
				loc = append(loc, nearHash(r, known[r.Intn(len(known))]))
			} else {
				loc = append(loc, rnd32(r))
			}
		}
		q := ask{raw: ref.Frame(ref.TGetHeaders, ref.EncLocator(loc)), kind: "headers"}
		var hs []ref.Hdr
		if rch == nil {
			hs = hdrsFor(loc)
		} else {
			// model of the stored chain
			for _, h := range loc {
				at := -1
				for i := range known {
					if known[i] == h {
						at = i
					}
				}
				if at < 0 {
					continue
				}
				for i := at + 1; i < len(known) && len(hs) < 512; i++ {
					x, err := ref.DecHdr(&ref.R{B: blocks[known[i]]})
					if err != nil {
						panic(err)
					}
					hs = append(hs, x)
				}
				break
			}
		}
		q.want = &frame{typ: ref.THeaders, body: ref.EncHeaders(hs)}
		return q
	case 5, 6:
		caps := uint32(0)
		want := addrs
		if r.Intn(3) == 0 {
			caps, want = uint32(1)<<uint(3+r.Intn(10)), "none"
		}
		var w ref.W
		w.U32(caps)
		return ask{raw: ref.Frame(ref.TGetPeerAddrs, w.B), want: &frame{typ: ref.TPeerAddrs}, any: want, kind: "addrs"}
	case 7, 8:
		h := rnd32(r)
		switch r.Intn(6) {
		case 0:
			return ask{raw: ref.Frame(ref.TGetBlock, h[:]), kind: "unknown block"}
		case 1:
			h = nearHash(r, known[r.Intn(len(known))])
			return ask{raw: ref.Frame(ref.TGetBlock, h[:]), kind: "nearly known block"}
		case 2: // known, then one that differs a little, in one go
			h = known[r.Intn(len(known))]
			g := nearHash(r, h)
			return ask{raw: append(ref.Frame(ref.TGetBlock, h[:]), ref.Frame(ref.TGetBlock, g[:])...),
				want: &frame{typ: ref.TBlock, body: blocks[h]}, kind: "block, then nearly the same"}
		}
		h = known[r.Intn(len(known))]
		return ask{raw: ref.Frame(ref.TGetBlock, h[:]), want: &frame{typ: ref.TBlock, body: blocks[h]}, kind: "block"}
	case 9:
		if rch != nil { // blocks and headers would be judged by the chain
			return ask{raw: ref.Frame(ref.TPong, validBytes(r, ref.TPong)), kind: "pong"}
		}
		return ask{raw: ref.Frame(ref.TBlock, validBytes(r, ref.TBlock)), kind: "a block"}
	}
	typ := []uint8{ref.TPong, ref.TPeerAddrs, ref.THeader, ref.THeaders, ref.TTransaction, ref.TCompactBlock}[r.Intn(6)]
	if rch != nil && typ == ref.THeaders {
		typ = ref.TPong
	}
	return ask{raw: ref.Frame(typ, validBytes(r, typ)), kind: fmt.Sprintf("no request %d", typ)}
}

// p02long asks on two connections for long: beyond 65536 requests, tens of megabytes each way
func p02long(c *Ctx) {
	n := newNode(c, nil)
	n.ch.set(1234, 567)
	body := ref.Body{}
	for k := 0; k < 400; k++ {
		body.Outs = append(body.Outs, rndOut(c.R))
	}
	body.Outs = uniqueOuts(body.Outs)
	h := nrmHdr(c.R)
	id := h.ID()
	n.ch.blocks[string(id[:])] = toBlock(h, body)
	block := ref.EncBlock(h, body)
	junk := make([]byte, 300000)
	c.R.Read(junk)
	pong := ref.EncPing(1234, 567)
	var wg sync.WaitGroup
	for conn := 0; conn < 2; conn++ {
		st := newStub(c, "tcp4", stubOpt{})
		defer st.close()
		_, sc := n.direct(c, st)
		if sc == nil {
			return
		}
		r := subRand(c.R)
		wg.Add(1)
		go func() {
			defer wg.Done()
			count, got, sent := 0, 0, 0
			total := 70000
			if c.Thorough {
				total = 600000
			}
			for count < total {
				// a batch, then its replies
				var raw []byte
				var want []frame
				for k := 1 + r.Intn(200); k > 0; k-- {
					switch x := r.Intn(400); {
					case x == 0:
						raw = append(raw, ref.Frame(ref.TGetCompactBlock, junk[:r.Intn(len(junk))])...)
					case x == 1:
						raw = append(raw, ref.Frame(ref.TGetBlock, id[:])...)
						want = append(want, frame{typ: ref.TBlock, body: block})
					case x == 2:
						raw = append(raw, ref.Frame(ref.TPong, append(ref.EncPing(1, 1), junk[:r.Intn(len(junk))]...))...)
					case x < 10:
						raw = append(raw, ref.Frame(ref.TGetHeaders, ref.EncLocator(nil))...)
						want = append(want, frame{typ: ref.THeaders, body: ref.EncHeaders(hdrsFor(nil))})
					case x < 16:
						raw = append(raw, ref.Frame(ref.TCompactBlock, validBytes(r, ref.TCompactBlock))...)
					default:
						raw = append(raw, ref.Frame(ref.TPing, ref.EncPing(rndU64(r), rndU64(r)))...)
						want = append(want, frame{typ: ref.TPong, body: pong})
					}
				}
				c.Case("message %d, %d bytes so far", count, sent)
				go sc.sendRaw(raw)
				sent += len(raw)
				for i, w := range want {
					f, ok := sc.recv(Long)
					if !ok {
						c.Viol("long:missing", "after %d requests and %d bytes a request of type-%d reply is not answered; connection ended %v", count+i, sent, w.typ, sc.isEnded())
						return
					}
					if f.typ != w.typ || !bytes.Equal(f.body, w.body) {
						c.Viol("long:content", "after %d requests and %d bytes: reply of type %d (%s), not of type %d (%s)", count+i, sent, f.typ, hx(f.body), w.typ, hx(w.body))
						return
					}
					got += len(f.body) + 11
				}
				count += len(want)
				c.Eval(fmt.Sprintf("long %d %d", conn, count))
			}
			c.Max("max_requests_on_a_connection", int64(count))
			c.Max("max_bytes_received_by_the_node", int64(sent))
			c.Max("max_bytes_sent_by_the_node", int64(got))
		}()
	}
	wg.Wait()
}

// p02big asks for blocks of many items, and much smaller things before and after.
func p02big(c *Ctx) {
	shapes := [][3]int{{4000, 60, 40}, {0, 1400, 0}, {0, 0, 5000}, {5200, 1, 1}, {70000, 0, 300}}
	if c.Thorough {
		shapes = append(shapes, [3]int{560000, 0, 0}, [3]int{0, 20000, 1000}, [3]int{1, 1, 150000})
	}
	n := newNode(c, nil)
	n.ch.set(4321, 98)
	pong := ref.EncPing(4321, 98)
	type one struct {
		id  [32]byte
		raw []byte
	}
	var all []one
	for _, b := range bigBodies(c.R, shapes...) {
		h := nrmHdr(c.R)
		f, blk := b.block(h)
		n.ch.blocks[string(blk.Hash())] = blk
		all = append(all, one{h.ID(), f})
		c.Max("max_block_bytes", int64(len(f)))
		c.Count("blocks "+b.what, 1)
	}
	var fs []func(*rand.Rand)
	for k := 0; k < 3; k++ {
		k := k
		fs = append(fs, func(r *rand.Rand) {
			st := newStub(c, "tcp4", stubOpt{})
			defer st.close()
			_, sc := n.direct(c, st)
			if sc == nil {
				return
			}
			var raw []byte
			var want [][]byte
			ask := func(q, a []byte) {
				raw = append(raw, q...)
				want = append(want, a)
			}
			for _, i := range append(r.Perm(len(all)), r.Perm(len(all))...) {
				for m := r.Intn(3); m > 0; m-- {
					ask(ref.Frame(ref.TPing, ref.EncPing(rndU64(r), rndU64(r))), ref.Frame(ref.TPong, pong))
				}
				if r.Intn(2) == 0 {
					ask(ref.Frame(ref.TGetHeaders, ref.EncLocator(nil)), ref.Frame(ref.THeaders, ref.EncHeaders(hdrsFor(nil))))
				}
				ask(ref.Frame(ref.TGetBlock, all[i].id[:]), all[i].raw)
			}
			ask(ref.Frame(ref.TPing, ref.EncPing(1, 1)), ref.Frame(ref.TPong, pong))
			go sc.sendRaw(raw)
			for i, w := range want {
				f, ok := sc.recv(2 * Long)
				if !ok {
					c.Viol("big:missing", "request %d of a series with large blocks is not answered (with %d bytes of type %d); connection ended %v", i, len(w), w[2], sc.isEnded())
					return
				}
				if !bytes.Equal(f.raw, w) {
					c.Viol("big:content", "request %d of a series with large blocks is answered with %d bytes of type %d (%s), not %d of type %d", i, len(f.raw), f.typ, hx(f.raw), len(w), w[2])
					return
				}
				c.Eval(fmt.Sprintf("big %d %d", k, i))
			}
		})
	}
	parallel(c, fs...)
}

// p02glued sends requests in the very packet of the handshake answer, and in odd pieces.
func p02glued(c *Ctx) {
	n := newNode(c, nil)
	n.ch.set(77, 88)
	for round := 0; c.More(round, 60); round++ {
		var tail []byte
		k := 1 + c.R.Intn(5)
		if round%7 == 3 {
			k = 400 // more than a read buffer
		}
		for i := 0; i < k; i++ {
			tail = append(tail, ref.Frame(ref.TPing, ref.EncPing(rndU64(c.R), uint64(i)))...)
		}
		cut := len(tail)
		if c.R.Intn(2) == 0 {
			cut = c.R.Intn(len(tail))
		}
		st := newStub(c, "tcp4", stubOpt{shake: func(ref.Hand) []byte { return append(goodShake(3, 7), tail[:cut]...) }})
		c.Case("%d pings, of which %d of %d bytes right behind the shake", k, cut, len(tail))
		_, sc := n.direct(c, st)
		if sc == nil {
			return
		}
		for rest := tail[cut:]; len(rest) > 0; {
			m := 1 + c.R.Intn(len(rest))
			if sc.sendRaw(rest[:m]) != nil {
				break
			}
			rest = rest[m:]
		}
		for i := 0; i < k; i++ {
			f, ok := sc.recvType(ref.TPong, Long)
			if !ok || !bytes.Equal(f.body, ref.EncPing(77, 88)) {
				c.Viol("glued", "of %d pings, %d of their %d bytes right behind the shake, number %d is not answered (%v: %s)", k, cut, len(tail), i, ok, hx(f.body))
				return
			}
		}
		c.Eval(fmt.Sprintf("glued %d %x", round, tail[:cut]))
		c.Count("glued", 1)
		st.close()
	}
}

// p02pairs moves the chain's state while pings are under way.
func p02pairs(c *Ctx) {
	for round := 0; c.More(round, 6); round++ {
		n := newNode(c, nil)
		n.ch.slow = 50 * time.Microsecond
		td := func(k uint64) uint64 { return k*7 + 1000 }
		var lo, hi uint64 // versions: certainly in force; perhaps in force
		n.ch.set(td(0), 0)
		stop := make(chan struct{})
		var wg sync.WaitGroup
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := uint64(1); ; k++ {
				select {
				case <-stop:
					return
				default:
				}
				atomic.StoreUint64(&hi, k)
				n.ch.set(td(k), k)
				atomic.StoreUint64(&lo, k)
				time.Sleep(20 * time.Microsecond)
			}
		}()
		var cw sync.WaitGroup
		for k := 0; k < 4; k++ {
			st := newStub(c, "tcp4", stubOpt{})
			defer st.close()
			_, sc := n.direct(c, st)
			if sc == nil {
				break
			}
			cw.Add(1)
			go func() {
				defer cw.Done()
				for i := 0; i < 400; i++ {
					from := atomic.LoadUint64(&lo)
					sc.send(ref.TPing, ref.EncPing(0, 0))
					f, ok := sc.recv(Long)
					if !ok || f.typ != ref.TPong || len(f.body) != 16 {
						c.Viol("missing:ping", "ping %d is not answered", i)
						return
					}
					to := atomic.LoadUint64(&hi)
					gt, gh := binary.BigEndian.Uint64(f.body), binary.BigEndian.Uint64(f.body[8:])
					if gt != td(gh) {
						c.Viol("pair", "a pong carries height %d and total difficulty %d, which never belonged together", gh, gt)
						return
					}
					if gh < from || gh > to {
						c.Viol("stale", "a pong carries height %d, the chain was between %d and %d", gh, from, to)
						return
					}
					c.Eval(fmt.Sprintf("%d/%d", round, gh))
				}
			}()
		}
		cw.Wait()
		close(stop)
		wg.Wait()
		c.Count("chain_moves", int(atomic.LoadUint64(&lo)))
		if c.Violated() {
			return
		}
	}
}

// ---- P03 ----

// labelled is a message of one sender with its number.
func labelled(r *rand.Rand, pool []*consensus.Block, g, i int) (p2p.Message, func(p *p2p.Peer), string, []byte) {
	var h [32]byte
	binary.BigEndian.PutUint32(h[:], uint32(g))
	binary.BigEndian.PutUint32(h[4:], uint32(i))
	switch r.Intn(6) {
	case 0:
		b := *pool[r.Intn(len(pool))]
		b.Header.Nonce = uint64(g)<<32 | uint64(i)
		hd, body := fromBlock(&b)
		return nil, func(p *p2p.Peer) { p.SendBlock(&b) }, "block", ref.Frame(ref.TBlock, ref.EncBlock(hd, body))
	case 1:
		return nil, func(p *p2p.Peer) { p.SendBlockRequest(h[:]) }, "getblock", ref.Frame(ref.TGetBlock, h[:])
	case 2:
		loc := consensus.Locator{Hashes: []consensus.Hash{h[:]}}
		return nil, func(p *p2p.Peer) { p.SendHeaderRequest(loc) }, "getheaders", ref.Frame(ref.TGetHeaders, ref.EncLocator([][32]byte{h}))
	case 3:
		tx := toTx(h, smallBody(r))
		off, body := fromTx(tx)
		return nil, func(p *p2p.Peer) { p.SendTransaction(*tx) }, "tx", ref.Frame(ref.TTransaction, ref.EncTx(off, body))
	case 4:
		x := p2p.Ping{TotalDifficulty: consensus.Difficulty(g), Height: uint64(i)}
		return &x, nil, "ping", ref.Frame(ref.TPing, ref.EncPing(uint64(g), uint64(i)))
	}
	x := p2p.Pong{Ping: p2p.Ping{TotalDifficulty: consensus.Difficulty(g), Height: uint64(i)}}
	return &x, nil, "pong", ref.Frame(ref.TPong, ref.EncPing(uint64(g), uint64(i)))
}

type p03rec struct {
	g, i int
	raw  []byte
}

// p03label finds out which message arrived.
func p03label(f frame) (g, i int, ok bool) {
	var k []byte
	switch f.typ {
	case ref.TBlock:
		h, err := ref.DecHdr(&ref.R{B: f.body})
		if err != nil {
			return
		}
		return int(h.Nonce >> 32), int(uint32(h.Nonce)), true
	case ref.TGetBlock:
		k = f.body
	case ref.TGetHeaders:
		if len(f.body) > 1 {
			k = f.body[1:]
		}
	case ref.TTransaction:
		k = f.body
	case ref.TPing, ref.TPong:
		if len(f.body) == 16 {
			return int(binary.BigEndian.Uint64(f.body)), int(binary.BigEndian.Uint64(f.body[8:])), true
		}
	}
	if len(k) < 8 {
		return
	}
	return int(binary.BigEndian.Uint32(k)), int(binary.BigEndian.Uint32(k[4:])), true
}

func p03flood(c *Ctx) {
	var pool []*consensus.Block
	for k := 0; k < 8; k++ {
		pool = append(pool, toBlock(nrmHdr(c.R), smallBody(c.R)))
	}
	// some of the size of a socket's buffers
	for _, k := range []int{120, 300, 1000, 3000} {
		b := smallBody(c.R)
		for i := 0; i < k; i++ {
			b.Ins = append(b.Ins, rndIn(c.R))
		}
		pool = append(pool, toBlock(nrmHdr(c.R), b))
	}
	// one block far larger than any socket buffer
	var big ref.Body
	for k := 0; k < 40; k++ {
		big.Outs = append(big.Outs, rndOut(c.R))
	}
	bigp := toBlock(nrmHdr(c.R), ref.Body{Outs: uniqueOuts(big.Outs)})
	for round := 0; c.More(round, 90); round++ {
		n := newNode(c, nil)
		slow := c.R.Intn(3) == 0
		sr := subRand(c.R)
		cut := ""
		if round%2 == 1 {
			cut = []string{"FIN", "RST", "local", "locals", "stall"}[c.R.Intn(5)]
		}
		opt := stubOpt{}
		if slow {
			opt.rcvbuf = 65536
			opt.onFrame = func(sc *sconn, f frame) {
				if sr.Intn(10) == 0 {
					time.Sleep(time.Duration(sr.Intn(1500)) * time.Microsecond)
				}
			}
		}
		if cut == "stall" {
			opt.noRead, opt.rcvbuf = true, 4096
		}
		st := newStub(c, "tcp4", opt)
		p, sc := n.direct(c, st)
		if sc == nil {
			return
		}
		senders := []int{1, 2, 4, 8, 16, 32}[c.R.Intn(6)]
		per := 30 + c.R.Intn(60)
		var sent [][][]byte
		var done int32
		var wg sync.WaitGroup
		sent = make([][][]byte, senders)
		for g := 0; g < senders; g++ {
			r := subRand(c.R)
			type one struct {
				m  p2p.Message
				fn func(*p2p.Peer)
			}
			var todo []one
			pl := pool
			if g == 0 && c.R.Intn(2) == 0 || cut == "stall" {
				pl = append(append([]*consensus.Block(nil), pool...), bigp, bigp, bigp)
			}
			for i := 0; i < per; i++ {
				m, fn, _, raw := labelled(r, pl, g, i)
				todo = append(todo, one{m, fn})
				sent[g] = append(sent[g], raw)
			}
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				if s := Try(func() {
					for _, o := range todo {
						if o.fn != nil {
							o.fn(p)
						} else {
							p.WriteMessage(o.m)
						}
						atomic.AddInt32(&done, 1)
					}
				}); s != "" {
					c.Viol("send:panic", "a sender panicked (%s): %s", cut, s)
				}
			}(g)
		}
		desc := fmt.Sprintf("%d senders, %d messages each, slow reader %v, cut %q", senders, per, slow, cut)
		c.Case("%s", desc)
		total := senders * per
		if cut != "" {
			at := int32(c.R.Intn(total))
			lim := 2 * time.Second
			if cut == "stall" {
				lim = 300 * time.Millisecond
			}
			Wait(lim, func() bool { return atomic.LoadInt32(&done) >= at })
			tcp := sc.Conn.(*net.TCPConn)
			switch cut {
			case "FIN":
				tcp.Close()
			case "RST":
				tcp.SetLinger(0)
				tcp.Close()
			case "local", "stall":
				p.Close()
			case "locals":
				for k := 0; k < 4; k++ {
					go p.Close()
				}
			}
		}
		if ok, _ := Guard(Long, wg.Wait); !ok {
			c.Viol("send:blocked", "senders are still blocked (%s), %d of %d sent\n%s", desc, atomic.LoadInt32(&done), total, clip(stacks(), 3000))
			return
		}
		if cut == "" {
			if !Wait(Long, func() bool { return len(sc.frames()) >= total || sc.isEnded() }) {
				c.Viol("lost", "%s: only %d of %d messages arrived", desc, len(sc.frames()), total)
				return
			}
			if _, ok := sc.drain(c, 1, 1); !ok && cut == "" {
				c.Viol("broken", "%s: the stream broke: %s", desc, sc.bad)
				return
			}
		} else {
			p.Close()
			if ok, _ := Guard(Long, p.WaitForDisconnect); !ok {
				c.Viol("close:stuck", "%s: the connection does not end\n%s", desc, clip(stacks(), 3000))
				return
			}
			if cut != "stall" {
				sc.waitEnd(3 * time.Second)
			}
		}
		// what arrived
		next := make([]int, senders)
		frames := sc.frames()
		for _, f := range frames {
			if cut == "" && f.typ == ref.TPong && bytes.Equal(f.body, ref.EncPing(1000, 10)) {
				continue // the barrier's
			}
			g, i, ok := p03label(f)
			if !ok || g < 0 || g >= senders || i < 0 || i >= per {
				c.Viol("alien", "%s: a message of type %d arrived that nobody sent: %s", desc, f.typ, hx(f.body))
				return
			}
			if !bytes.Equal(f.raw, sent[g][i]) {
				c.Viol("damaged", "%s: message %d of sender %d arrived damaged: %s, not %s", desc, i, g, hx(f.raw), hx(sent[g][i]))
				return
			}
			if i != next[g] {
				c.Viol("order", "%s: message %d of sender %d arrived when message %d was due", desc, i, g, next[g])
				return
			}
			next[g]++
		}
		if cut == "" {
			for g := range next {
				if next[g] != per {
					c.Viol("lost", "%s: %d of %d messages of sender %d arrived", desc, next[g], per, g)
				}
			}
			c.Count("complete_streams", 1)
		} else if sc.bad != "" && cut != "RST" && cut != "FIN" && !strings.Contains(sc.bad, "cut after") {
			c.Viol("broken", "%s: the stream is not whole messages: %s", desc, sc.bad)
		}
		c.Count("messages_arrived", len(frames))
		c.Count("cut_"+cut, 1)
		// sending to the dead
		p.Close()
		ok, pn := Guard(Long, func() {
			p.SendPing()
			p.SendBlock(pool[0])
			p.SendBlockRequest(make([]byte, 32))
			p.SendPeerRequest(consensus.CapFullNode)
			p.SendHeaderRequest(consensus.Locator{})
			p.SendTransaction(*toTx([32]byte{}, ref.Body{}))
			for k := 0; k < 20; k++ {
				p.WriteMessage(&p2p.Ping{})
			}
		})
		if !ok || pn != "" {
			c.Viol("dead:send", "sending to a disconnected peer blocks or panics (%s): %s", desc, pn)
			return
		}
		// how the senders' messages mixed is the interleaving seen
		var mix bytes.Buffer
		for _, f := range frames {
			g, _, _ := p03label(f)
			mix.WriteByte(byte(g))
		}
		c.Eval(desc + mix.String())
		c.Sample(desc)
		st.close()
	}
}

// p03pause sends to peers that read nothing for a while.
func p03pause(c *Ctx) {
	var pool []*consensus.Block
	for k := 0; k < 4; k++ {
		b := smallBody(c.R)
		for i := 0; i < 2000; i++ {
			b.Ins = append(b.Ins, rndIn(c.R))
		}
		pool = append(pool, toBlock(nrmHdr(c.R), b))
	}
	pauses := []time.Duration{time.Second, 3 * time.Second, 6 * time.Second, 12 * time.Second, 20 * time.Second, 32 * time.Second}
	if c.Thorough {
		pauses = append(pauses, 65*time.Second, 125*time.Second, 185*time.Second)
	}
	const senders, per = 4, 150
	var fs []func(*rand.Rand)
	for _, pause := range pauses {
		pause := pause
		fs = append(fs, func(r *rand.Rand) {
			n := newNode(c, nil)
			st := newStub(c, "tcp4", stubOpt{noRead: true})
			defer st.close()
			p, sc := n.direct(c, st)
			if sc == nil {
				return
			}
			defer p.Close()
			next := make([]int, senders)
			sent := make([][][]byte, senders)
			var done int32
			for g := range sent {
				r := subRand(r)
				var todo []func()
				for i := 0; i < per; i++ {
					m, fn, _, raw := labelled(r, pool, g, i)
					if fn == nil {
						fn = func(p *p2p.Peer) { p.WriteMessage(m) }
					}
					todo = append(todo, func() { fn(p) })
					sent[g] = append(sent[g], raw)
				}
				go func() {
					for _, f := range todo {
						f()
						atomic.AddInt32(&done, 1)
					}
				}()
			}
			time.Sleep(pause)
			if k := atomic.LoadInt32(&done); k < senders*per {
				c.Count("senders_waited", 1)
			}
			total := 0
			for total < senders*per {
				sc.Conn.SetReadDeadline(time.Now().Add(Long))
				f, err := readFrame(sc.Conn)
				if err != nil {
					if ne := net.Error(nil); errors.As(err, &ne) && ne.Timeout() {
						c.Viol("lost", "after a pause of %v only %d of %d messages arrive (%v)", pause, total, senders*per, err)
					} else if strings.HasPrefix(err.Error(), "not a frame") {
						c.Viol("broken", "after a pause of %v: %v", pause, err)
					} else {
						c.Count("gave_up", 1) // the node may cut off who doesn't read, but not go on then
					}
					break
				}
				g, i, ok := p03label(f)
				if !ok || g < 0 || g >= senders || i < 0 || i >= per {
					c.Viol("alien", "after a pause of %v: message %d, of type %d, is one that nobody sent: %s", pause, total, f.typ, hx(f.body))
					return
				}
				if !bytes.Equal(f.raw, sent[g][i]) {
					c.Viol("damaged", "after a pause of %v: message %d of sender %d arrived damaged: %s, not %s", pause, i, g, hx(f.raw), hx(sent[g][i]))
					return
				}
				if i != next[g] {
					c.Viol("order", "after a pause of %v: message %d of sender %d arrived when message %d was due", pause, i, g, next[g])
					return
				}
				next[g]++
				total++
			}
			c.Count("messages_arrived", total)
			c.Count("pauses", 1)
			c.Eval(fmt.Sprintf("pause %v", pause))
		})
	}
	parallel(c, fs...)
}

// p03quiet sends from idle peers that disconnect at the same moment.
// rawMsg is a message of any size.
type rawMsg struct {
	typ uint8
	b   []byte
}

func (m *rawMsg) Bytes() []byte        { return m.b }
func (m *rawMsg) Type() uint8          { return m.typ }
func (m *rawMsg) Read(io.Reader) error { return nil }

// p03sizes sends one message at a time, of all sizes around those of buffers: each has to
// arrive before the next is sent.
// p03large mixes blocks and transactions of many items with small messages.
func p03large(c *Ctx) {
	shapes := [][3]int{{3000, 20, 10}, {10, 1500, 3}, {0, 0, 6000}, {60000, 0, 0}, {100, 2500, 500}}
	if c.Thorough {
		shapes = append(shapes, [3]int{500000, 0, 0}, [3]int{0, 20000, 0}, [3]int{0, 0, 100000})
	}
	bodies := bigBodies(c.R, shapes...)
	for round := 0; c.More(round, 3); round++ {
		n := newNode(c, nil)
		st := newStub(c, "tcp4", stubOpt{})
		p, sc := n.direct(c, st)
		if sc == nil {
			return
		}
		senders := []int{1, 3, 6}[round%3]
		per := 24 / senders
		sent := make([][][]byte, senders)
		var wg sync.WaitGroup
		for g := 0; g < senders; g++ {
			r := subRand(c.R)
			var todo []p2p.Message
			for i := 0; i < per; i++ {
				b := bodies[r.Intn(len(bodies))]
				switch r.Intn(3) {
				case 0:
					h := nrmHdr(r)
					h.Nonce = uint64(g)<<32 | uint64(i)
					raw, blk := b.block(h)
					todo, sent[g] = append(todo, blk), append(sent[g], raw)
				case 1:
					var off [32]byte
					binary.BigEndian.PutUint32(off[:], uint32(g))
					binary.BigEndian.PutUint32(off[4:], uint32(i))
					todo = append(todo, toTx(off, b.body))
					sent[g] = append(sent[g], ref.Frame(ref.TTransaction, append(append([]byte(nil), off[:]...), b.enc...)))
				default:
					todo = append(todo, &p2p.Ping{TotalDifficulty: consensus.Difficulty(g), Height: uint64(i)})
					sent[g] = append(sent[g], ref.Frame(ref.TPing, ref.EncPing(uint64(g), uint64(i))))
				}
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, m := range todo {
					p.WriteMessage(m)
				}
			}()
		}
		desc := fmt.Sprintf("%d senders, %d messages each, large ones among them", senders, per)
		c.Case("%s", desc)
		next := make([]int, senders)
		for k := 0; k < senders*per; k++ {
			f, ok := sc.recv(2 * Long)
			if !ok {
				c.Viol("large:lost", "%s: only %d arrive; connection ended %v", desc, k, sc.isEnded())
				return
			}
			g, i, ok := p03label(f)
			if !ok || g < 0 || g >= senders || i != next[g] {
				c.Viol("large:order", "%s: message %d to arrive (type %d, %d bytes) is number %d of sender %d, which is at %v", desc, k, f.typ, len(f.raw), i, g, next)
				return
			}
			if !bytes.Equal(f.raw, sent[g][i]) {
				c.Viol("large:damaged", "%s: message %d of sender %d (type %d) arrives altered", desc, i, g, f.typ)
				return
			}
			next[g]++
			c.Max("max_message_bytes", int64(len(f.raw)))
			c.Eval(fmt.Sprint("large", round, k, g, i))
		}
		wg.Wait()
		p.Close()
		st.close()
	}
}

func p03sizes(c *Ctx) {
	var sizes []int
	for k := 0; k < 4200; k++ {
		sizes = append(sizes, k)
	}
	for k := 512; k < 1<<20; k += 512 {
		if k > 1<<16 && k&(k-1) != 0 && k%(1<<16) != 0 {
			continue
		}
		for d := -13; d <= 2; d++ {
			sizes = append(sizes, k+d)
		}
	}
	for k := 0; k < c.N(100); k++ {
		sizes = append(sizes, c.R.Intn(1<<uint(8+c.R.Intn(14))))
	}
	sizes = append(sizes, 5000000, ref.MaxMsg-1, ref.MaxMsg)
	n := newNode(c, nil)
	st := newStub(c, "tcp4", stubOpt{})
	defer st.close()
	p, sc := n.direct(c, st)
	if sc == nil {
		return
	}
	defer p.Close()
	buf := make([]byte, ref.MaxMsg)
	c.R.Read(buf)
	for i, size := range sizes {
		m := &rawMsg{typ: ref.TTransaction, b: buf[:size]}
		if size > 8 {
			binary.BigEndian.PutUint64(m.b, uint64(i))
		}
		c.Case("a message of %d bytes", size)
		p.WriteMessage(m)
		f, ok := sc.recv(Long)
		if !ok {
			c.Viol("sizes:lost", "a message of %d bytes does not arrive while nothing else is sent", size)
			return
		}
		if f.typ != m.typ || !bytes.Equal(f.body, m.b) {
			c.Viol("sizes:altered", "a message of %d bytes arrives with type %d and %d bytes, equal %v", size, f.typ, len(f.body), bytes.Equal(f.body, m.b))
			return
		}
		c.Eval(fmt.Sprint("size ", size))
		c.Count("sizes", 1)
	}
}

func p03quiet(c *Ctx) {
	n := newNode(c, nil)
	for i := 0; c.More(i, 300); i++ {
		st := newStub(c, "tcp4", stubOpt{})
		p, sc := n.direct(c, st)
		if sc == nil {
			return
		}
		var wg sync.WaitGroup
		for g := 0; g < 6; g++ {
			wg.Add(1)
			d := time.Duration(c.R.Intn(200)) * time.Microsecond
			go func(g int) {
				defer wg.Done()
				time.Sleep(d)
				if s := Try(func() {
					for k := 0; k < 5; k++ {
						p.WriteMessage(&p2p.Ping{TotalDifficulty: consensus.Difficulty(g), Height: uint64(k)})
					}
				}); s != "" {
					c.Viol("send:panic", "a sender panicked during a disconnect: %s", s)
				}
			}(g)
		}
		d := time.Duration(c.R.Intn(200)) * time.Microsecond
		how := c.R.Intn(3)
		go func() {
			time.Sleep(d)
			switch how {
			case 0:
				p.Close()
			case 1:
				sc.Conn.Close()
			case 2:
				sc.sendRaw([]byte("no frame at all"))
			}
		}()
		if ok, _ := Guard(Long, wg.Wait); !ok {
			c.Viol("send:blocked", "senders block on a disconnecting peer (how %d)\n%s", how, clip(stacks(), 3000))
			return
		}
		if ok, _ := Guard(Long, p.WaitForDisconnect); !ok {
			c.Viol("close:stuck", "the connection does not end (how %d)\n%s", how, clip(stacks(), 3000))
			return
		}
		sc.waitEnd(Long)
		next := map[int]int{}
		for _, f := range sc.frames() {
			g, k, ok := p03label(f)
			if !ok || k != next[g] {
				c.Viol("order", "message %d of sender %d arrived when message %d was due", k, g, next[g])
				return
			}
			next[g]++
		}
		c.Eval(fmt.Sprintf("%d %v", how, next))
		st.close()
	}
}

// ---- P04 ----

func sockets() (n int) {
	es, _ := os.ReadDir("/proc/self/fd")
	for _, e := range es {
		if l, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.HasPrefix(l, "socket:") {
			n++
		}
	}
	return
}

var p04causes = []string{"fin", "rst", "halfclose", "malformed", "unexpected", "oversize", "nomagic", "halfframe", "close", "closes", "disconnect",
	"fin+close", "rst+close", "malformed+close", "writeerr", "refused", "banned", "stalled+close", "stalled+rst", "stalled+banned", "stalled+disconnect", "all"}

func p04causesJob(part int) func(*Ctx) {
	return func(c *Ctx) {
		debug.SetGCPercent(-1) // a finalizer must not do the closing
		defer debug.SetGCPercent(100)
		base := -1
		for round := 0; c.More(round, 60); round++ {
			n := newNode(c, nil)
			n.ch.onBlock = func(*consensus.Block) error { return refusal() }
			type one struct {
				p     *p2p.Peer
				sc    *sconn
				st    *stub
				cause string
				wd    chan struct{}
				snd   chan struct{}
				sent  *int64
			}
			var all []one
			for i := range p04causes {
				if i%2 != part {
					continue
				}
				cause := p04causes[i]
				opt := stubOpt{}
				if strings.HasPrefix(cause, "stalled") {
					opt.noRead, opt.rcvbuf = true, 4096
				}
				st := newStub(c, "tcp4", opt)
				p, sc := n.direct(c, st)
				if sc == nil {
					return
				}
				o := one{p, sc, st, cause, make(chan struct{}, 8), make(chan struct{}, 8), new(int64)}
				all = append(all, o)
			}
			busy := c.R.Intn(2) == 0
			var bigb *consensus.Block
			var big ref.Body
			for k := 0; k < 30; k++ {
				big.Outs = append(big.Outs, rndOut(c.R))
			}
			bigb = toBlock(nrmHdr(c.R), ref.Body{Outs: uniqueOuts(big.Outs)})
			for _, o := range all {
				o := o
				for k := 0; k < 3; k++ {
					go func() { o.p.WaitForDisconnect(); o.wd <- struct{}{} }()
				}
				for k := 0; k < 2; k++ {
					go func(k int) {
						if strings.HasPrefix(o.cause, "stalled") || busy {
							for i := 0; i < 400; i++ {
								if strings.HasPrefix(o.cause, "stalled") {
									o.p.SendBlock(bigb)
								} else {
									o.p.SendPing()
								}
								atomic.AddInt64(o.sent, 1)
							}
						}
						o.snd <- struct{}{}
					}(k)
				}
				if busy {
					go func() {
						for i := 0; i < 200; i++ {
							if o.sc.send(ref.TPing, ref.EncPing(1, 1)) != nil {
								return
							}
						}
					}()
				}
			}
			time.Sleep(time.Duration(c.R.Intn(30)) * time.Millisecond)
			if round%5 == 1 {
				// until the writers of the peers that do not read are blocked
				for _, o := range all {
					if !strings.HasPrefix(o.cause, "stalled") {
						continue
					}
					for last, same := int64(-1), 0; same < 25; same++ {
						if now := atomic.LoadInt64(o.sent); now != last {
							last, same = now, 0
						}
						time.Sleep(10 * time.Millisecond)
					}
					if atomic.LoadInt64(o.sent) < 800 {
						c.Count("writers_blocked", 1)
					}
				}
			}
			for _, o := range all {
				c.Case("cause %s busy %v", o.cause, busy)
				tcp := o.sc.Conn.(*net.TCPConn)
				do := func(w string) {
					switch w {
					case "fin":
						tcp.Close()
					case "rst":
						tcp.SetLinger(0)
						tcp.Close()
					case "halfclose":
						tcp.CloseWrite()
					case "malformed":
						o.sc.send(ref.TGetHeaders, []byte{200})
					case "unexpected":
						o.sc.send([]uint8{0, 1, 2, 50, 255}[c.R.Intn(5)], []byte("abc"))
					case "oversize":
						f := ref.Frame(ref.TPing, nil)
						binary.BigEndian.PutUint64(f[3:], ref.MaxMsg+1)
						o.sc.sendRaw(f)
					case "nomagic":
						o.sc.sendRaw(bytes.Repeat([]byte("GET /"), 20))
					case "halfframe":
						f := ref.Frame(ref.TPing, ref.EncPing(1, 2))
						o.sc.sendRaw(f[:12])
						tcp.CloseWrite()
					case "close":
						go o.p.Close()
					case "closes":
						for k := 0; k < 8; k++ {
							go o.p.Close()
						}
					case "disconnect":
						go o.p.Disconnect(nil)
						go o.p.Disconnect(io.EOF)
					case "writeerr":
						tcp.SetLinger(0)
						tcp.Close()
						go func() {
							for k := 0; k < 5; k++ {
								o.p.SendPing()
							}
						}()
					case "refused":
						o.sc.send(ref.TBlock, ref.EncBlock(nrmHdr(c.R), ref.Body{}))
					case "banned":
						go n.sy.Pool.Ban(o.st.addr)
					case "stalled":
					}
				}
				if o.cause == "all" {
					go do("malformed")
					go do("close")
					go do("rst")
					go n.sy.Pool.Ban(o.st.addr)
					continue
				}
				for _, w := range strings.Split(o.cause, "+") {
					do(w)
				}
			}
			for _, o := range all {
				for k := 0; k < 3; k++ {
					select {
					case <-o.wd:
					case <-time.After(Long):
						c.Viol("waiter:"+o.cause, "after %s (busy %v) a waiter for the disconnect is not released\n%s", o.cause, busy, clip(stacks(), 3500))
						return
					}
				}
				for k := 0; k < 2; k++ {
					select {
					case <-o.snd:
					case <-time.After(Long):
						c.Viol("sender:"+o.cause, "after %s a sender is still blocked\n%s", o.cause, clip(stacks(), 3500))
						return
					}
				}
				if !strings.HasPrefix(o.cause, "stalled") && !o.sc.waitEnd(Long) {
					c.Viol("socket:"+o.cause, "after %s the remote end does not see the connection closed", o.cause)
					return
				}
				if ok, p := Guard(Long, func() { o.p.Close(); o.p.Disconnect(nil); o.p.Close(); o.p.WaitForDisconnect() }); !ok || p != "" {
					c.Viol("again:"+o.cause, "closing again after %s blocks or panics: %s", o.cause, p)
					return
				}
				c.Count("cause_"+o.cause, 1)
				c.Eval(fmt.Sprintf("%d/%s/%v", round, o.cause, busy))
			}
			var dump string
			if !Wait(Long, func() bool { k, d := p2pGoroutines(); dump = d; return k == 0 }) {
				c.Viol("goroutines", "goroutines of peers still run after all of them disconnected\n%s", clip(dump, 3000))
				return
			}
			for _, o := range all {
				o.st.close()
			}
			var now int
			if base < 0 {
				Wait(2*time.Second, func() bool { now = sockets(); return now == 0 })
				base = now
				if base > 0 {
					c.Viol("descriptors", "%d sockets stay open after all peers disconnected", base)
					return
				}
			} else if !Wait(Long, func() bool { now = sockets(); return now <= base }) {
				c.Viol("descriptors", "%d sockets are open after all peers disconnected, %d before", now, base)
				return
			}
			c.Count("rounds", 1)
			runtime.GC() // all is accounted for; keeps the memory small
		}
		c.Sample(p04causes)
	}
}

// p04early closes connections that have only just started.
func p04early(c *Ctx) {
	debug.SetGCPercent(-1)
	defer debug.SetGCPercent(100)
	n := newNode(c, nil)
	for i := 0; c.More(i, 400); i++ {
		st := newStub(c, "tcp4", stubOpt{})
		n.add(st.addr)
		p, err := p2p.NewPeer(n.sy, st.addr)
		if err != nil {
			c.Fail("dial: %v", err)
			return
		}
		how := c.R.Intn(4)
		switch how {
		case 0:
			go p.Close()
			p.Start()
		case 1:
			p.Start()
			p.Close()
		case 2:
			p.Close()
			p.Start()
		case 3:
			st.close()
			p.Start()
		}
		if ok, _ := Guard(Long, p.WaitForDisconnect); !ok {
			c.Viol("early", "a connection closed at its start (way %d) does not end\n%s", how, clip(stacks(), 3000))
			return
		}
		st.close()
		c.Eval(fmt.Sprintf("%d/%d", i, how))
	}
	var dump string
	if !Wait(Long, func() bool { k, d := p2pGoroutines(); dump = d; return k == 0 }) {
		c.Viol("goroutines", "goroutines of peers still run\n%s", clip(dump, 3000))
	}
	var now int
	if !Wait(Long, func() bool { now = sockets(); return now == 0 }) {
		c.Viol("descriptors", "%d sockets stay open", now)
	}
}

func init() {
	loop := "the loopback network delivers what is written to it"
	register(&Prop{ID: "P01", Min: 3500,
		Rule:   "one evaluation is one hostile connection or handshake run to its end with a bystander watched; distinct by the bytes sent",
		Assume: []string{loop, fmt.Sprintf("an operation that has not returned after %v never will", Long)},
		Jobs: []Job{{Name: "bytes", Fn: p01bytes(nil, false, 2500)}, {Name: "debug", Fn: p01bytes(nil, true, 800)},
			{Name: "nopool", Fn: p01bytes(&nodeOpt{noMempool: true}, false, 800)}, {Name: "real", Fn: p01real},
			{Name: "handshake", Fn: p01handshake}, {Name: "ban", Fn: p01ban}, {Name: "amid", Fn: p01amid}, {Name: "accepted", Fn: p01accepted}, {Name: "program", Fn: programJob("P01", false)}, {Name: "churn", MapRace: true, Fn: p11job(false, true, 12)}}})
	register(&Prop{ID: "P02", Min: 1000,
		Rule:   "one evaluation is one pipelined request sequence of a connection compared with its model, or one pong checked against the chain's versions; distinct by sequence or version",
		Assume: []string{loop},
		Jobs:   []Job{{Name: "model", Fn: p02model(false)}, {Name: "real", Fn: p02model(true)}, {Name: "pairs", Fn: p02pairs}, {Name: "long", Fn: p02long}, {Name: "big", Fn: p02big}, {Name: "glued", Fn: p02glued}}})
	register(&Prop{ID: "P03", Min: 300,
		Rule:   "one evaluation is one connection's whole stream checked message by message; distinct by setting and by the observed mix of senders",
		Assume: []string{loop},
		Jobs:   []Job{{Name: "flood", Fn: p03flood}, {Name: "quiet", Fn: p03quiet}, {Name: "pause", Fn: p03pause}, {Name: "sizes", Fn: p03sizes}, {Name: "large", Fn: p03large}}})
	register(&Prop{ID: "P04", Min: 500,
		Rule:   "one evaluation is one ended connection with its waiters, senders, goroutines and sockets accounted for; distinct by cause and load",
		Assume: []string{loop},
		Jobs:   []Job{{Name: "causes0", Fn: p04causesJob(0)}, {Name: "causes1", Fn: p04causesJob(1)}, {Name: "early", Fn: p04early}, {Name: "faults", Fn: p04faults}}})
}
