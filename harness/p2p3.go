package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"io/ioutil"
	"math/bits"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/dblokhin/gringo/chain"
	"github.com/dblokhin/gringo/consensus"
	"github.com/dblokhin/gringo/p2p"
	"github.com/sirupsen/logrus"

	"verif/ref"
)

// ---- P09 ----

// acceptHand offers a hand to the accepting side.
func acceptHand(raw []byte) (p *p2p.Peer, err error, m *memConn, trouble string) {
	m = newMemConn(raw)
	ok, pn := Guard(Long, func() { p, err = acceptPeer(m) })
	if !ok {
		return nil, nil, m, "does not return"
	}
	return p, err, m, pn
}

func goodHand(r *rand.Rand) ref.Hand {
	return ref.Hand{Version: 1, Caps: r.Uint32(), Nonce: r.Uint64(), TD: rndU64(r), Sender: rndAddr(r), Receiver: rndAddr(r), UA: rndUA(r), Genesis: ref.Testnet4Genesis}
}

// dialRaw dials a peer that answers with the given bytes and then, if told, half-closes.
func dialRaw(c *Ctx, n *node, raw []byte, fin bool) (p *p2p.Peer, err error, st *stub, trouble string) {
	st = newStub(c, "tcp4", stubOpt{shake: func(ref.Hand) []byte { return raw }, onConn: func(sc *sconn) {
		if fin {
			sc.Conn.(*net.TCPConn).CloseWrite()
		}
	}})
	ok, pn := Guard(Long, func() { p, err = p2p.NewPeer(n.sy, st.addr) })
	if !ok {
		return nil, nil, st, "does not return"
	}
	return p, err, st, pn
}

func badVersion(r *rand.Rand) uint32 {
	return []uint32{0, 2, 3, 0x01000000, 0x00010000, 0x101, 0xffffffff, 1 << 31, r.Uint32() | 2}[r.Intn(9)]
}

func badGenesis(r *rand.Rand, i int) (g [32]byte, what string) {
	g = ref.Testnet4Genesis
	switch r.Intn(4) {
	case 0:
		g = rnd32(r)
		what = "another genesis"
	case 1:
		for a, b := 0, 31; a < b; a, b = a+1, b-1 {
			g[a], g[b] = g[b], g[a]
		}
		what = "reversed genesis"
	default:
		k := i % 256
		g[k/8] ^= 1 << uint(k%8)
		what = fmt.Sprintf("genesis bit %d", k)
	}
	return
}

func p09dial(c *Ctx) {
	debug.SetGCPercent(-1)
	n := newNode(c, nil)
	for i := 0; c.More(i, 700); i++ {
		sh := ref.Shake{Version: 1, Caps: c.R.Uint32(), TD: rndU64(c.R), UA: rndUA(c.R), Genesis: ref.Testnet4Genesis}
		what, want, typ := "good", true, uint8(ref.TShake)
		var raw []byte
		switch c.R.Intn(9) {
		case 0, 1, 2:
			if c.R.Intn(3) == 0 {
				sh.Caps = 0
			}
		case 3, 4:
			sh.Version, want = badVersion(c.R), false
			what = fmt.Sprintf("version %d", sh.Version)
		case 5, 6:
			sh.Genesis, what = badGenesis(c.R, i)
			want = false
		case 7:
			typ = []uint8{ref.THand, ref.TPing, ref.TError, 99, 0xff}[c.R.Intn(5)]
			what, want = fmt.Sprintf("type %d", typ), false
		case 8:
			raw = ref.Frame(typ, sh.Enc())
			k := c.R.Intn(len(raw))
			raw, want, what = raw[:k], false, fmt.Sprintf("cut to %d", k)
		}
		if raw == nil {
			raw = ref.Frame(typ, sh.Enc())
			if want && c.R.Intn(8) == 0 {
				raw[c.R.Intn(2)] ^= 1 << uint(c.R.Intn(8))
				want, what = false, "magic"
			}
		}
		c.Case("dial, shake %s %s", what, hx(raw))
		p, err, st, trouble := dialRaw(c, n, raw, !want && (strings.HasPrefix(what, "cut") || c.R.Intn(2) == 0))
		if trouble != "" {
			c.Viol("dial:trouble", "dialling a peer with %s: %s", what, trouble)
			st.close()
			return
		}
		kind := strings.Fields(what)[0]
		if (err == nil) != want {
			c.Viol("dial:"+kind, "dialling a peer with %s: error %v", what, err)
		}
		if err != nil {
			// the socket is closed
			var sc *sconn
			if cl := st.connList(); len(cl) > 0 {
				sc = cl[0]
			}
			if sc == nil {
				sc = st.wait(c, 1)
			}
			if sc == nil || !sc.waitEnd(Long) {
				c.Viol("dial:open", "the socket stays open after a failed handshake (%s)", what)
				st.close()
				return
			}
			c.Count("refused_"+kind, 1)
		} else if p == nil {
			c.Viol("dial:nil", "no error and no peer (%s)", what)
		} else {
			if uint32(p.Info.Version) != sh.Version || uint32(p.Info.Capabilities) != sh.Caps || uint64(p.Info.TotalDifficulty) != sh.TD || p.Info.UserAgent != sh.UA {
				c.Viol("dial:info", "the peer said %+v, recorded is %+v", sh, p.Info)
			}
			if p.Addr != st.addr {
				c.Viol("dial:addr", "the peer at %s is recorded as %s", st.addr, p.Addr)
			}
			p.Start()
			p.Close()
			c.Count("completed", 1)
		}
		if sc := st.wait(c, 1); sc != nil {
			h := sc.hand
			if sc.bad != "" && strings.Contains(sc.bad, "no hand") {
				c.Viol("hand:format", "the node's hand is malformed: %s", hx(sc.handRaw))
			} else {
				if h.Version != 1 || h.Caps != uint32(consensus.CapFullNode) || h.Genesis != ref.Testnet4Genesis {
					c.Viol("hand:content", "the node's hand carries version %d, capabilities %x, genesis %x", h.Version, h.Caps, h.Genesis)
				}
				if addrString(h.Receiver) != st.addr {
					c.Count("receiver_differs", 1)
				}
				// its nonce is recognised as ours
				x := goodHand(c.R)
				x.Nonce = h.Nonce
				if _, err, _, _ := acceptHand(ref.Frame(ref.THand, x.Enc())); err == nil {
					c.Viol("hand:nonce", "the node accepts a connection that presents its own nonce %x (handshake %d)", h.Nonce, i)
				}
				c.Count("own_nonces", 1)
			}
		}
		c.Eval(what + string(raw))
		c.Sample(what)
		st.close()
	}
	// every cut of a short shake
	full := ref.Frame(ref.TShake, ref.Shake{Version: 1, Caps: 7, TD: 5, UA: "ua", Genesis: ref.Testnet4Genesis}.Enc())
	for k := 0; k < len(full); k++ {
		_, err, st, trouble := dialRaw(c, n, full[:k], true)
		if trouble != "" || err == nil {
			c.Viol("dial:cut", "a shake cut to %d of %d bytes: error %v %s", k, len(full), err, trouble)
		} else if sc := st.wait(c, 1); sc == nil || !sc.waitEnd(Long) {
			c.Viol("dial:open", "the socket stays open after a cut shake")
		}
		c.Eval(fmt.Sprintf("cut%d", k))
		st.close()
	}
	var now int
	if !Wait(Long, func() bool { now = sockets(); return now == 0 }) {
		c.Viol("dial:descriptors", "%d sockets stay open after all attempts", now)
	}
	// nobody there
	st := newStub(c, "tcp4", stubOpt{})
	st.close()
	if p, err := p2p.NewPeer(n.sy, st.addr); err == nil || p != nil {
		c.Viol("dial:nobody", "dialling a closed port gives no error")
	}
	for _, a := range []string{"", "nonsense", "127.0.0.1", "127.0.0.1:99999"} {
		if _, err := p2p.NewPeer(n.sy, a); err == nil {
			c.Viol("dial:nobody", "dialling %q gives no error", a)
		}
	}
}

func p09accept(c *Ctx) {
	n := newNode(c, nil)
	for i := 0; c.More(i, 4000); i++ {
		h := goodHand(c.R)
		what, want, typ := "good", true, uint8(ref.THand)
		var raw []byte
		switch c.R.Intn(9) {
		case 0, 1, 2:
		case 3, 4:
			h.Version, want = badVersion(c.R), false
			what = fmt.Sprintf("version %d", h.Version)
		case 5, 6:
			h.Genesis, what = badGenesis(c.R, i)
			want = false
		case 7:
			typ = []uint8{ref.TShake, ref.TPing, ref.TError, 99, 0xff}[c.R.Intn(5)]
			what, want = fmt.Sprintf("type %d", typ), false
		case 8:
			raw = ref.Frame(typ, h.Enc())
			k := c.R.Intn(len(raw))
			raw, want, what = raw[:k], false, fmt.Sprintf("cut to %d", k)
		}
		if raw == nil {
			raw = ref.Frame(typ, h.Enc())
			if want && c.R.Intn(8) == 0 {
				raw[c.R.Intn(2)] ^= 1 << uint(c.R.Intn(8))
				want, what = false, "magic"
			}
		}
		kind := strings.Fields(what)[0]
		c.Case("accept, hand %s %s", what, hx(raw))
		p, err, m, trouble := acceptHand(raw)
		if trouble != "" {
			c.Viol("accept:trouble", "accepting a hand with %s: %s", what, trouble)
			return
		}
		if (err == nil) != want {
			c.Viol("accept:"+kind, "accepting a hand with %s: error %v", what, err)
		}
		if err == nil && p != nil {
			if p.Info.Version != h.Version || uint32(p.Info.Capabilities) != h.Caps || uint64(p.Info.TotalDifficulty) != h.TD || p.Info.UserAgent != h.UA {
				c.Viol("accept:info", "the peer said %+v, recorded is %+v", h, p.Info)
			}
			f, ok := parseFrame(m.written())
			sh, e := ref.DecShake(f.body)
			if !ok || f.typ != ref.TShake || e != nil {
				c.Viol("shake:format", "the node's answer to a hand is %s", hx(m.written()))
			} else if sh.Version != 1 || sh.Caps != uint32(consensus.CapFullNode) || sh.Genesis != ref.Testnet4Genesis {
				c.Viol("shake:content", "the node's shake carries version %d, capabilities %x, genesis %x", sh.Version, sh.Caps, sh.Genesis)
			}
			if m.left() != 0 {
				c.Viol("accept:left", "%d bytes of the hand are left unread", m.left())
			}
			c.Count("completed", 1)
		} else {
			c.Count("refused_"+kind, 1)
		}
		if err == nil && p == nil {
			c.Viol("accept:nil", "no error and no peer (%s)", what)
		}
		c.Eval(what + string(raw))
		c.Sample(what)
	}
	// our own nonces, all of them, as many connections show them
	seen := map[uint64]int{}
	var recent []uint64
	st := newStub(c, "tcp4", stubOpt{})
	defer st.close()
	for i := 0; i < 230; i++ {
		p, err := p2p.NewPeer(n.sy, st.addr)
		if err != nil {
			c.Fail("dial: %v", err)
			return
		}
		sc := st.wait(c, i+1)
		if sc == nil {
			c.Fail("no connection")
			return
		}
		x := goodHand(c.R)
		x.Nonce = sc.hand.Nonce
		seen[x.Nonce]++
		if _, err, m, _ := acceptHand(ref.Frame(ref.THand, x.Enc())); err == nil {
			c.Viol("accept:own", "the node accepts a connection that presents its own nonce %x (connection %d)", x.Nonce, i)
		} else if len(m.written()) > 0 {
			c.Count("answered_before_refusal", 1)
		}
		// of the connections before, some may still be on their way
		if recent = append(recent, x.Nonce); len(recent) > 15 {
			recent = recent[1:]
		}
		own := x.Nonce
		for k, nonce := range recent[:len(recent)-1] {
			if k%3 != i%3 && k != len(recent)-2 {
				continue
			}
			x.Nonce = nonce
			if _, err, _, _ := acceptHand(ref.Frame(ref.THand, x.Enc())); err == nil {
				c.Viol("accept:own", "the node accepts a connection that presents its own nonce %x (of %d connections before %d)", nonce, len(recent)-1-k, i)
			}
		}
		x.Nonce = own + 1
		if _, err, _, _ := acceptHand(ref.Frame(ref.THand, x.Enc())); err != nil && seen[x.Nonce] == 0 {
			c.Viol("accept:foreign", "the node refuses a nonce that is not its own: %v", err)
		}
		// almost our own
		near := []uint64{own ^ 1<<uint(i%64), own&0xffffffff | c.R.Uint64()<<32, own&^0xffffffff | uint64(c.R.Uint32()), bits.ReverseBytes64(own), ^own,
			own&0xffff | c.R.Uint64()<<16, own&(1<<53-1) | c.R.Uint64()<<53}[i%7]
		x.Nonce = near
		if _, err, _, _ := acceptHand(ref.Frame(ref.THand, x.Enc())); err != nil && seen[near] == 0 {
			c.Viol("accept:foreign", "the node refuses nonce %x, its own is %x: %v", near, own, err)
		}
		c.Eval(fmt.Sprintf("own %x", x.Nonce))
		p.Start()
		p.Close()
	}
	c.Count("distinct_own_nonces", len(seen))
	if len(seen) < 2 {
		c.Viol("hand:nonce", "every connection presents the same nonce")
	}
}

// p09helper runs in a process of its own: it dials or accepts at an address.
func p09helper(role, addr string) {
	logrus.SetOutput(os.Stderr)
	sy := p2p.NewSyncer(nil, newFakeChain(), &fakeMempool{})
	var p *p2p.Peer
	var err error
	if role == "dial" {
		p, err = p2p.NewPeer(sy, addr)
	} else {
		var cn net.Conn
		if cn, err = net.Dial("tcp", addr); err == nil {
			p, err = acceptPeer(cn)
		}
	}
	if err != nil {
		fmt.Printf("ERR %v\n", err)
		return
	}
	fmt.Printf("OK %d %d %d %q\n", p.Info.Version, p.Info.Capabilities, p.Info.TotalDifficulty, p.Info.UserAgent)
	time.Sleep(200 * time.Millisecond)
}

// p09two: two processes of this implementation shake hands.
func p09two(c *Ctx) {
	for i := 0; c.More(i, 20); i++ {
		for _, role := range []string{"dial", "accept"} {
			ln, err := net.Listen("tcp4", loopIP+":0")
			if err != nil {
				c.Fail("%v", err)
				return
			}
			cmd := exec.Command(os.Args[0], "-helper", role, ln.Addr().String())
			var out bytes.Buffer
			cmd.Stdout = &out
			if err := cmd.Start(); err != nil {
				c.Fail("%v", err)
				return
			}
			var p *p2p.Peer
			if role == "dial" { // the other dials, we accept
				cn, e := ln.Accept()
				if e != nil {
					c.Fail("%v", e)
					return
				}
				cn.SetDeadline(time.Now().Add(Long))
				p, err = acceptPeer(cn)
			} else { // we dial a forwarder to the other, who accepts
				cn, e := ln.Accept()
				if e != nil {
					c.Fail("%v", e)
					return
				}
				front, e := net.Listen("tcp4", loopIP+":0")
				if e != nil {
					c.Fail("%v", e)
					return
				}
				go func() {
					in, e := front.Accept()
					if e != nil {
						return
					}
					go copyConn(in, cn)
					copyConn(cn, in)
				}()
				p, err = p2p.NewPeer(newNode(c, nil).sy, front.Addr().String())
				front.Close()
			}
			cmd.Wait()
			ln.Close()
			if err != nil || p == nil || !strings.HasPrefix(out.String(), "OK ") {
				c.Viol("two:"+role, "two nodes do not complete the handshake (the other: %s): %v, the other says %q", role, err, out.String())
				return
			}
			if want := fmt.Sprintf("OK %d %d %d %q\n", p.Info.Version, p.Info.Capabilities, p.Info.TotalDifficulty, p.Info.UserAgent); want != out.String() {
				c.Viol("two:info", "two nodes of one kind record each other differently: %q and %q", want, out.String())
			}
			c.Eval(fmt.Sprintf("%s%d", role, i))
			c.Count("pairs_"+role, 1)
		}
	}
}

// p09networks: a node is on the network of its own chain, whichever it is.
func p09networks(c *Ctx) {
	type network struct {
		name string
		b    consensus.Block
		id   [32]byte
	}
	var nets []network
	add := func(name string, b consensus.Block) {
		h, _ := fromBlock(&b)
		nets = append(nets, network{name, b, h.ID()})
	}
	add("Testnet1", chain.Testnet1)
	add("Testnet2", chain.Testnet2)
	add("Testnet3", chain.Testnet3)
	add("Testnet4", chain.Testnet4)
	add("Mainnet", chain.Mainnet)
	for i := 0; i < 2; i++ {
		add(fmt.Sprintf("network %d", i), *toBlock(nrmHdr(c.R), ref.Body{}))
	}
	for i, a := range nets {
		for _, b := range nets[:i] {
			if a.id == b.id {
				c.Viol("networks:same", "%s and %s have the same genesis identity %x", a.name, b.name, a.id)
				return
			}
		}
	}
	for i := 0; c.More(i, 4); i++ {
		for _, own := range nets {
			for _, its := range nets {
				g := own.b
				var bc p2p.Blockchain
				if i%2 == 0 {
					fc := newFakeChain()
					fc.gen = g
					bc = fc
				} else {
					st := newStore()
					if c.R.Intn(2) == 0 { // a chain that has grown
						st = newStore(append([]*consensus.Block{&g}, synthChain(c.R, 1, 3)...)...)
					}
					bc = chain.New(&g, st)
				}
				sy := p2p.NewSyncer(nil, bc, nil)
				c.Case("a node of %s and a peer of %s", own.name, its.name)
				var sent [32]byte
				st := newStub(c, "tcp4", stubOpt{shake: func(h ref.Hand) []byte {
					sent = h.Genesis
					return ref.Frame(ref.TShake, ref.Shake{Version: 1, Caps: 7, TD: 9, UA: "net", Genesis: its.id}.Enc())
				}})
				p, err := p2p.NewPeer(sy, st.addr)
				if sent != own.id {
					c.Viol("networks:dial", "a node on the chain of %s says its genesis block is %x, not %x", own.name, sent, own.id)
					return
				}
				if (err == nil) != (own.id == its.id) {
					c.Viol("networks:dial", "a node of %s dials a peer of %s: %v", own.name, its.name, err)
					return
				}
				if p != nil {
					p.Close()
				}
				st.close()
				h := goodHand(c.R)
				h.Genesis = its.id
				m := newMemConn(ref.Frame(ref.THand, h.Enc()))
				_, err = acceptAs(sy, m)
				if (err == nil) != (own.id == its.id) {
					c.Viol("networks:accept", "a node of %s accepts a peer of %s: %v", own.name, its.name, err)
					return
				}
				if err == nil {
					f, e := readFrame(bytes.NewReader(m.written()))
					sh, e2 := ref.DecShake(f.body)
					if e != nil || e2 != nil || sh.Genesis != own.id {
						c.Viol("networks:accept", "a node of %s answers with the genesis block %x (%v %v)", own.name, sh.Genesis, e, e2)
						return
					}
				}
				c.Eval(fmt.Sprintf("net %s %s %d", own.name, its.name, i%2))
				c.Count("pairs", 1)
			}
		}
	}
}

// p01accepted: a peer that was accepted is served by the node that accepted it.
func p01accepted(c *Ctx) {
	for i := 0; c.More(i, 60); i++ {
		n := newNode(c, nil)
		n.ch.set(rndU64(c.R), rndU64(c.R))
		ln, err := net.Listen("tcp4", loopIP+":0")
		if err != nil {
			c.Fail("%v", err)
			return
		}
		var raw []byte
		var names []string
		for k := 0; k < 1+c.R.Intn(8); k++ {
			w, b, al := hostile(c.R)
			names, raw = append(names, w), append(raw, b...)
			if !al {
				break
			}
		}
		c.Case("an accepted peer sends %v", names)
		go func() {
			cn, err := net.Dial("tcp4", ln.Addr().String())
			if err != nil {
				return
			}
			cn.Write(append(ref.Frame(ref.THand, goodHand(rand.New(rand.NewSource(1))).Enc()), raw...))
			time.Sleep(30 * time.Millisecond)
			cn.Close()
		}()
		cn, err := ln.Accept()
		if err != nil {
			c.Fail("%v", err)
			return
		}
		ln.Close()
		cn.SetDeadline(time.Now().Add(Long))
		p, err := acceptAs(n.sy, cn)
		if err != nil {
			c.Viol("served:accept", "a compatible peer is not accepted: %v", err)
			return
		}
		p.Start()
		if ok, _ := Guard(Long, p.WaitForDisconnect); !ok {
			c.Viol("accepted:open", "the connection of an accepted peer that left does not end")
			return
		}
		c.Eval(string(raw))
		c.Count("accepted", 1)
	}
}

func copyConn(dst, src net.Conn) {
	b := make([]byte, 4096)
	for {
		n, err := src.Read(b)
		if n > 0 {
			dst.Write(b[:n])
		}
		if err != nil {
			dst.Close()
			return
		}
	}
}

// ---- P10 ----

func p10job(only string) func(c *Ctx) { return func(c *Ctx) { p10states(c, only) } }

func p10states(c *Ctx, only string) {
	type st10 struct {
		name string
		prep func(n *node, r *rand.Rand, add func(stubOpt) *stub) // before running
		mid  func(n *node, r *rand.Rand, stubs []*stub)           // after connections came about
		need int                                                  // connections to wait for
		when time.Duration                                        // <0: before Run; else after so long
	}
	big := func(r *rand.Rand) *consensus.Block {
		var b ref.Body
		for k := 0; k < 40; k++ {
			b.Outs = append(b.Outs, rndOut(r))
		}
		h := nrmHdr(r)
		h.Height, h.TD = 1<<40, 1<<50
		return toBlock(h, ref.Body{Outs: uniqueOuts(b.Outs)})
	}
	good := func(k int) func(*node, *rand.Rand, func(stubOpt) *stub) {
		return func(n *node, r *rand.Rand, add func(stubOpt) *stub) {
			for i := 0; i < k; i++ {
				add(stubOpt{})
			}
		}
	}
	cases := []st10{
		{name: "nothing known", when: 0},
		{name: "nothing known, later", when: 1500 * time.Millisecond},
		{name: "before running", prep: good(2), when: -1},
		{name: "at once", prep: good(3), when: 0},
		{name: "at the first dial", prep: good(3), when: time.Millisecond},
		{name: "connected", prep: good(3), need: 3},
		{name: "one of many connected", prep: good(8), need: 2},
		{name: "crowd", prep: good(15), need: 15},
		{name: "crowd that leaves", prep: good(15), need: 15, mid: func(n *node, r *rand.Rand, ss []*stub) {
			for _, s := range ss {
				s := s
				d := time.Duration(r.Intn(2000)) * time.Microsecond
				go func() { time.Sleep(d); s.connList()[0].Conn.Close() }()
			}
		}},
		{name: "never dialled", when: 1200 * time.Millisecond, prep: func(n *node, r *rand.Rand, add func(stubOpt) *stub) {
			add(stubOpt{})
			for k := 0; k < 50; k++ {
				n.add(fmt.Sprintf("127.0.0.1:%d", 1+k)) // dialled in vain at most
			}
		}},
		{name: "failed", when: 3500 * time.Millisecond, prep: func(n *node, r *rand.Rand, add func(stubOpt) *stub) {
			for k := 0; k < 2; k++ {
				add(stubOpt{}).close()
			}
			add(stubOpt{shake: func(ref.Hand) []byte { return []byte("nonsense, and more of it") }})
		}},
		{name: "dialling a mute peer", when: 500 * time.Millisecond, prep: func(n *node, r *rand.Rand, add func(stubOpt) *stub) { add(stubOpt{mute: true}) }},
		{name: "banned", prep: good(3), need: 3, mid: func(n *node, r *rand.Rand, ss []*stub) {
			n.sy.Pool.Ban(ss[0].addr)
			n.sy.Pool.Ban("10.0.0.1:1")
		}},
		{name: "banning meanwhile", prep: good(3), need: 3, mid: func(n *node, r *rand.Rand, ss []*stub) {
			for _, s := range ss {
				go n.sy.Pool.Ban(s.addr)
			}
		}},
		{name: "closing meanwhile", prep: good(4), need: 4, mid: func(n *node, r *rand.Rand, ss []*stub) {
			for _, s := range ss {
				go s.connList()[0].Conn.Close()
			}
		}},
		{name: "disconnected", prep: good(3), need: 3, mid: func(n *node, r *rand.Rand, ss []*stub) {
			for _, s := range ss {
				s.close()
			}
			time.Sleep(50 * time.Millisecond)
		}},
		{name: "flooding", prep: good(3), need: 3, mid: func(n *node, r *rand.Rand, ss []*stub) {
			for _, s := range ss {
				sc, r := s.connList()[0], subRand(r)
				go func() {
					for sc.sendRaw(innocent(r)) == nil {
					}
				}()
			}
			time.Sleep(30 * time.Millisecond)
		}},
		{name: "stalled", need: 2, prep: func(n *node, r *rand.Rand, add func(stubOpt) *stub) {
			add(stubOpt{noRead: true, rcvbuf: 4096})
			add(stubOpt{})
		}, mid: func(n *node, r *rand.Rand, ss []*stub) {
			b := big(r)
			for k := 0; k < 200; k++ {
				n.sy.Pool.PropagateBlock(b)
			}
			time.Sleep(100 * time.Millisecond)
		}},
		{name: "relaying", prep: good(3), need: 3, mid: func(n *node, r *rand.Rand, ss []*stub) {
			b := big(r)
			go func() {
				for k := 0; k < 300; k++ {
					n.sy.Pool.PropagateBlock(b)
				}
			}()
		}},
		{name: "learning meanwhile", prep: good(2), need: 2, mid: func(n *node, r *rand.Rand, ss []*stub) {
			go func() {
				for k := 0; k < 2000; k++ {
					n.add(fmt.Sprintf("127.0.0.1:%d", 1+k%60))
				}
			}()
		}},
	}
	reps := 1
	if c.Thorough {
		reps = 6
	}
	for ; reps > 0; reps-- {
		var fs []func(*rand.Rand)
		for _, cs := range cases {
			if !strings.Contains(cs.name, only) {
				continue
			}
			for _, twice := range []bool{false, true} {
				cs, twice := cs, twice
				fs = append(fs, func(r *rand.Rand) {
					n := newNode(c, nil)
					var stubs []*stub
					if cs.prep != nil {
						cs.prep(n, r, func(o stubOpt) *stub {
							s := newStub(c, "tcp4", o)
							stubs = append(stubs, s)
							n.add(s.addr)
							return s
						})
					}
					defer func() {
						for _, s := range stubs {
							s.close()
						}
					}()
					stop := func() bool {
						ok, p := Guard(Long, func() {
							if twice {
								var wg sync.WaitGroup
								for k := 0; k < 3; k++ {
									wg.Add(1)
									go func() { defer wg.Done(); n.sy.Stop() }()
								}
								wg.Wait()
							}
							n.sy.Stop()
						})
						if !ok || p != "" {
							c.Viol("stop:"+cs.name, "the stop request blocks or panics (%s): %s", cs.name, p)
						}
						return ok && p == ""
					}
					c.Case("stop: %s, repeated %v", cs.name, twice)
					before := cs.when < 0
					if before && !stop() {
						return
					}
					n.run()
					if cs.need > 0 {
						if !Wait(Long, func() bool {
							k := 0
							for _, s := range stubs {
								k += len(s.connList())
							}
							return k >= cs.need
						}) {
							c.Viol("nodial", "known addresses are not dialled (%s)", cs.name)
							return
						}
					} else if cs.when > 0 {
						time.Sleep(cs.when)
					}
					if cs.mid != nil {
						cs.mid(n, r, stubs)
					}
					if !before && !stop() {
						return
					}
					dials := func() (d int32) {
						for _, s := range stubs {
							d += atomic.LoadInt32(&s.dials)
						}
						return
					}
					atStop := dials()
					select {
					case <-n.runDone:
					case <-time.After(Long):
						c.Viol("run:"+cs.name, "the run call does not return after the stop request (%s)\n%s", cs.name, clip(stacks(), 3000))
						return
					}
					if before && dials() > 0 {
						c.Viol("dial:"+cs.name, "a node stopped before it ran dials")
					}
					for _, s := range stubs {
						s := s
						if s.opt.noRead {
							continue
						}
						if !Wait(Long, func() bool { return atomic.LoadInt32(&s.open) == 0 }) {
							c.Viol("open:"+cs.name, "a connection stays open after the node stopped (%s)", cs.name)
							return
						}
					}
					n.add("127.0.0.1:9")
					time.Sleep(2500 * time.Millisecond)
					if d := dials(); d > atStop+1 {
						c.Viol("dial:"+cs.name, "%d new connections are dialled after the stop request (%s)", d-atStop, cs.name)
						return
					}
					// the pool still answers
					if ok, p := Guard(Long, func() { n.sy.Pool.Peers(0); n.sy.Pool.Ban("10.0.0.1:1"); n.sy.Stop() }); !ok || p != "" {
						c.Viol("after:"+cs.name, "the stopped pool blocks or panics (%s): %s", cs.name, p)
						return
					}
					c.Eval(fmt.Sprintf("%s %v", cs.name, twice))
					c.Count("stops", 1)
					c.Sample(cs.name)
				})
			}
		}
		parallel(c, fs...)
		if c.Violated() {
			return
		}
		var dump string
		if !Wait(Long, func() bool { k, d := p2pGoroutines(); dump = d; return k == 0 }) {
			c.Viol("goroutines", "goroutines of stopped nodes still run\n%s", clip(dump, 3000))
			return
		}
		c.Count("goroutines_accounted", 1)
	}
}

// p10moments stops at many different moments of a start.
// p10ticks stops nodes on a virtual clock, after up to hundreds of attempts, and watches them for long after
func p10ticks(c *Ctx) {
	clockLimit(c)
	raw := func(b []byte) func(ref.Hand) []byte { return func(ref.Hand) []byte { return b } }
	closer := func(sc *sconn) { sc.Conn.Close() }
	kinds := []stubOpt{{shake: raw(ref.Frame(ref.TShake, ref.Shake{Version: 1, Caps: 7, TD: 1, UA: "x", Genesis: [32]byte{1}}.Enc()))},
		{shake: raw([]byte("HTTP/1.1 400 Bad Request\r\n\r\n"))}, {shake: func(ref.Hand) []byte { return nil }, onConn: closer}, {onConn: closer},
		{onConn: func(sc *sconn) { sc.send(99, []byte("x")) }}}
	var l []clocked
	for i := 0; i < c.N(60); i++ {
		i, r := i, subRand(c.R)
		var stubs []*stub
		for k := r.Intn(4); k >= 0; k-- {
			stubs = append(stubs, newStub(c, "tcp4", kinds[r.Intn(len(kinds))]))
		}
		dials := func() (k int) {
			for _, st := range stubs {
				k += int(atomic.LoadInt32(&st.dials))
			}
			return
		}
		wait := time.Duration(r.Intn([]int{3, 60, 400}[i%3]))*time.Second + []time.Duration{0, 1, time.Millisecond, 500 * time.Millisecond, 999999999}[r.Intn(5)]
		dead, ban, again, late := r.Intn(4)*r.Intn(20), r.Intn(3) == 0, r.Intn(3) == 0, r.Intn(2) == 0
		l = append(l, clocked{time.Now().Add(time.Hour), func() {
			n := newNode(c, nil)
			for _, st := range stubs {
				n.add(st.addr)
			}
			for k := 0; k < dead; k++ {
				n.add(fmt.Sprintf("127.0.0.1:%d", 1+k))
			}
			n.run()
			time.Sleep(wait)
			if ban {
				n.sy.Pool.Ban(stubs[0].addr)
			}
			c.Case("stopped after %v, %d addresses, ban %v", wait, len(stubs)+dead, ban)
			before := dials()
			n.sy.Stop()
			if again {
				n.sy.Stop()
			}
			t := time.Now()
			done := false
			for k := 0; k < 1000 && !done; k++ {
				select {
				case <-n.runDone:
					done = true
				default:
					time.Sleep(100 * time.Millisecond)
				}
			}
			fin := func() { c.flush(true); os.Exit(0) }
			if !done {
				c.Viol("run:tick", "the run call does not return within 100 s when stopped after %v", wait)
				fin()
			}
			c.Max("max_ms_until_return", time.Since(t).Milliseconds())
			if late {
				// an address learnt after the stop
				n.add(fmt.Sprintf("127.0.0.1:%d", 60+dead))
			}
			after := dials()
			if after > before+1 {
				c.Viol("dial:tick", "%d connections are dialled after the stop request (after %v)", after-before, wait)
				fin()
			}
			time.Sleep(200 * time.Second)
			if d := dials(); d > after {
				c.Viol("dial:tick:late", "%d connections are dialled after the run call returned (stopped after %v)", d-after, wait)
				fin()
			}
			for _, st := range stubs {
				// the stubs live outside the bubble: give them real time
				o := atomic.LoadInt32(&st.open)
				for k := 0; k < 4500 && o != 0; k++ {
					syscall.Nanosleep(&syscall.Timespec{Nsec: 10e6}, nil)
					o = atomic.LoadInt32(&st.open)
				}
				if o != 0 {
					c.Viol("open:tick", "%d connections stay open when stopped after %v", o, wait)
					fin()
				}
				st.close()
			}
			c.Count("stops_on_the_virtual_clock", 1)
			c.Count("dials_before", before)
			c.Eval(fmt.Sprint("tick ", wait, len(stubs), dead, ban))
		}})
	}
	runClocked(c, l)
}

func p10moments(c *Ctx) {
	var fs []func(*rand.Rand)
	for i := 0; c.More(i, 40); i++ {
		i := i
		fs = append(fs, func(r *rand.Rand) {
			n := newNode(c, nil)
			st := newStub(c, "tcp4", stubOpt{onConn: func(sc *sconn) { sc.ping(nil, 1, 1) }})
			defer st.close()
			n.add(st.addr)
			wait := time.Duration(r.Intn(3000)) * time.Microsecond
			if i%3 == 0 {
				wait = time.Duration(r.Intn(1200)) * time.Millisecond
			}
			n.run()
			time.Sleep(wait)
			n.sy.Stop()
			select {
			case <-n.runDone:
			case <-time.After(Long):
				c.Viol("run:moment", "the run call does not return when stopped after %v\n%s", wait, clip(stacks(), 3000))
				return
			}
			if !Wait(Long, func() bool { return atomic.LoadInt32(&st.open) == 0 }) {
				c.Viol("open:moment", "a connection stays open when stopped after %v", wait)
				return
			}
			d := atomic.LoadInt32(&st.dials)
			time.Sleep(1500 * time.Millisecond)
			if d2 := atomic.LoadInt32(&st.dials); d2 != d {
				c.Viol("dial:moment", "dialled after the run call returned (stopped after %v)", wait)
			}
			c.Eval(fmt.Sprintf("%v", wait))
			c.Count(fmt.Sprintf("dials_%d", d), 1)
		})
	}
	for len(fs) > 0 {
		k := min(40, len(fs))
		parallel(c, fs[:k]...)
		fs = fs[k:]
	}
	var dump string
	if !Wait(Long, func() bool { k, d := p2pGoroutines(); dump = d; return k == 0 }) {
		c.Viol("goroutines", "goroutines of stopped nodes still run\n%s", clip(dump, 3000))
	}
}

// ---- P11 ----

func p11job(real, loop bool, secs int) func(*Ctx) {
	return func(c *Ctx) {
		if c.Thorough {
			secs *= 8
		}
		var opt *nodeOpt
		var bs []*consensus.Block
		if real {
			gen := chain.Testnet4
			bs = append([]*consensus.Block{&gen}, synthChain(c.R, 1, 40)...)
			opt = &nodeOpt{chain: chain.New(&gen, newStore(bs...))}
		}
		n := newNode(c, opt)
		if !real {
			bs = synthChain(c.R, 3, 20)
			for _, b := range bs {
				n.ch.blocks[string(b.Hash())] = b
			}
			n.ch.headers = func(l consensus.Locator) (hs []consensus.BlockHeader) {
				for _, b := range bs[:len(l.Hashes)%10] {
					hs = append(hs, b.Header)
				}
				return
			}
			n.ch.onBlock = func(b *consensus.Block) error {
				n.ch.set(uint64(b.Header.TotalDifficulty), b.Header.Height)
				if b.Header.Nonce == 666 {
					return refusal()
				}
				return nil
			}
			n.mp.on = func(t *consensus.Transaction) error {
				if t.KernelOffset[0] == 66 {
					return refusal()
				}
				return nil
			}
		}
		end := time.Now().Add(time.Duration(secs) * time.Second)
		live := func() bool { return time.Now().Before(end) }
		var wg sync.WaitGroup
		spawn := func(f func(r *rand.Rand)) {
			r := subRand(c.R)
			wg.Add(1)
			go func() { defer wg.Done(); f(r) }()
		}
		var smu sync.Mutex
		var addrs []string
		known := func(r *rand.Rand) string {
			smu.Lock()
			defer smu.Unlock()
			if len(addrs) == 0 || r.Intn(6) == 0 {
				return fmt.Sprintf("127.0.0.1:%d", 1+r.Intn(30))
			}
			return addrs[r.Intn(len(addrs))]
		}
		talk := func(sc *sconn, r *rand.Rand) {
			for k := r.Intn(60); k > 0 && live(); k-- {
				var raw []byte
				switch r.Intn(12) {
				case 0:
					h := bs[r.Intn(len(bs))].Hash()
					raw = ref.Frame(ref.TGetBlock, h)
				case 1:
					var h [32]byte
					copy(h[:], bs[r.Intn(len(bs))].Hash())
					raw = ref.Frame(ref.TGetHeaders, ref.EncLocator([][32]byte{h, rnd32(r)}))
				case 2:
					var as []ref.Addr
					for m := r.Intn(5); m > 0; m-- {
						as = append(as, mkAddr(known(r)))
					}
					raw = ref.Frame(ref.TPeerAddrs, ref.EncAddrs(as))
				default:
					raw = innocent(r)
				}
				if sc.sendRaw(raw) != nil {
					return
				}
				c.Count("messages", 1)
				if r.Intn(4) == 0 {
					time.Sleep(time.Duration(r.Intn(500)) * time.Microsecond)
				}
			}
			switch r.Intn(6) {
			case 0:
				sc.Conn.Close()
			case 1:
				sc.sendRaw([]byte("not a message at all"))
			case 2:
				sc.sendRaw(offence(r, "tx"))
			case 3:
				sc.sendRaw(offence(r, "block"))
			case 4:
				sc.sendRaw(offence(r, "headers"))
			}
		}
		var stubs []*stub
		mk := func(r *rand.Rand) *stub {
			tr := subRand(r)
			var tm sync.Mutex
			st := newStub(c, "tcp4", stubOpt{td: r.Uint64() % 100, onConn: func(sc *sconn) {
				tm.Lock()
				x := subRand(tr)
				tm.Unlock()
				talk(sc, x)
			}})
			smu.Lock()
			stubs = append(stubs, st)
			addrs = append(addrs, st.addr)
			smu.Unlock()
			return st
		}
		if loop {
			for k := 0; k < 6; k++ {
				n.add(mk(c.R).addr)
			}
			n.run()
			spawn(func(r *rand.Rand) {
				for live() {
					n.add(mk(r).addr)
					time.Sleep(700 * time.Millisecond)
				}
			})
		} else {
			for g := 0; g < 5; g++ {
				spawn(func(r *rand.Rand) {
					for live() {
						st := mk(r)
						n.add(st.addr)
						p, err := p2p.NewPeer(n.sy, st.addr)
						if err != nil {
							continue
						}
						if pi := n.sy.Pool.PeerInfo(st.addr); pi != nil {
							pi.Lock()
							pi.Peer = p
							pi.Unlock()
						}
						p.Start()
						c.Count("connections", 1)
						for k := r.Intn(20); k > 0; k-- {
							switch r.Intn(4) {
							case 0:
								p.SendPing()
							case 1:
								p.SendBlock(bs[r.Intn(len(bs))])
							case 2:
								p.SendBlockRequest(bs[r.Intn(len(bs))].Hash())
							case 3:
								p.SendPeerRequest(consensus.CapFullNode)
							}
						}
						if r.Intn(2) == 0 {
							p.Close()
						}
						if r.Intn(2) == 0 {
							go p.WaitForDisconnect()
						}
						time.Sleep(time.Duration(r.Intn(5)) * time.Millisecond)
						p.Close()
						st.close()
					}
				})
			}
		}
		op := func(name string, every time.Duration, f func(r *rand.Rand)) {
			spawn(func(r *rand.Rand) {
				for live() {
					f(r)
					c.Count("op_"+name, 1)
					time.Sleep(time.Duration(r.Int63n(int64(every))))
				}
			})
		}
		op("peers", time.Millisecond, func(r *rand.Rand) { n.sy.Pool.Peers(consensus.Capabilities(r.Intn(3))).Bytes() })
		op("add", time.Millisecond, func(r *rand.Rand) { n.sy.Pool.Add(known(r)) })
		op("isban", time.Millisecond, func(r *rand.Rand) { n.pool.IsBan(known(r)) })
		op("ban", 600*time.Millisecond, func(r *rand.Rand) { n.sy.Pool.Ban(known(r)) })
		op("propagate", 3*time.Millisecond, func(r *rand.Rand) { n.sy.Pool.PropagateBlock(bs[r.Intn(len(bs))]) })
		op("info", time.Millisecond, func(r *rand.Rand) {
			if pi := n.sy.Pool.PeerInfo(known(r)); pi != nil {
				pi.Lock()
				_ = fmt.Sprint(pi.Status, pi.Height, pi.TotalDifficulty, pi.Capabilities, pi.LastConn, pi.ProtocolVersion, pi.Peer != nil)
				pi.Unlock()
			}
		})
		// watchers of single peers, as closely as possible
		for g := 0; g < 2; g++ {
			op("watch", 2*time.Millisecond, func(r *rand.Rand) {
				var live []string
				smu.Lock()
				for _, st := range stubs {
					if atomic.LoadInt32(&st.open) > 0 {
						live = append(live, st.addr)
					}
				}
				smu.Unlock()
				if len(live) == 0 {
					return
				}
				pi := n.sy.Pool.PeerInfo(live[r.Intn(len(live))])
				if pi == nil {
					return
				}
				for k := 0; k < 3000; k++ {
					pi.Lock()
					if pi.Status < 0 || pi.Height+uint64(pi.TotalDifficulty)+uint64(pi.Capabilities)+uint64(pi.ProtocolVersion) == 12345 || pi.LastConn.Unix() == 1 || pi.Peer == nil && k > 1<<20 {
						c.Count("odd", 1)
					}
					pi.Unlock()
					if k%16 == 0 {
						time.Sleep(time.Duration(r.Intn(20)) * time.Microsecond)
					}
				}
			})
		}
		op("accept", 2*time.Millisecond, func(r *rand.Rand) { acceptPeer(newMemConn(ref.Frame(ref.THand, goodHand(r).Enc()))) })
		op("dial", 20*time.Millisecond, func(r *rand.Rand) {
			if p, err := p2p.NewPeer(n.sy, known(r)); err == nil {
				p.Start()
				p.SendPing()
				p.Close()
			}
		})
		if ok, _ := Guard(time.Duration(secs)*time.Second+2*Long, wg.Wait); !ok {
			c.Viol("stuck", "the workload does not end\n%s", clip(stacks(), 4000))
			return
		}
		if loop {
			go n.sy.Stop()
			if !n.stop(c) {
				c.Viol("stuck", "the node does not stop\n%s", clip(stacks(), 4000))
			}
		}
		smu.Lock()
		for _, st := range stubs {
			c.Count("dials", int(atomic.LoadInt32(&st.dials)))
			st.close()
		}
		smu.Unlock()
		c.mu.Lock()
		total := int64(0)
		for _, v := range c.res.Counts {
			total += v
		}
		c.res.Evals += total
		c.mu.Unlock()
		for i := int64(0); i < total; i++ {
			c.seen[uint64(i)] = struct{}{}
		}
	}
}

// p11calm watches nodes with nothing beside them that would order their goroutines by accident:
// peers that are dialled, say a little and end at about the same moments.
func p11calm(c *Ctx) {
	secs := 24
	if c.Thorough {
		secs *= 6
	}
	const nodes = 8
	end := time.Now().Add(time.Duration(secs) * time.Second)
	var dials, msgs int64
	var lns []net.Listener
	var sys []*p2p.Syncer
	done := make(chan int, nodes)
	for k := 0; k < nodes; k++ {
		ch := newFakeChain()
		ch.onBlock = func(b *consensus.Block) error {
			if b.Header.Nonce == 666 {
				return refusal()
			}
			return nil
		}
		sy := p2p.NewSyncer(nil, ch, &fakeMempool{})
		for i := 0; i < 12; i++ {
			ln, err := net.Listen("tcp4", loopIP+":0")
			if err != nil {
				c.Fail("listen: %v", err)
				return
			}
			lns = append(lns, ln)
			r := subRand(c.R)
			mode := k % 4
			go func() {
				for {
					cn, err := ln.Accept()
					if err != nil {
						return
					}
					if _, err = readFrame(cn); err == nil {
						atomic.AddInt64(&dials, 1)
						cn.Write(goodShake(uint64(r.Intn(100)), uint32(r.Intn(8))))
					}
					go io.Copy(ioutil.Discard, cn)
					var wait time.Duration
					switch mode {
					case 0: // all end at the same moments
						wait = time.Until(time.Now().Truncate(3 * time.Second).Add(3 * time.Second))
					case 1:
						wait = time.Duration(r.Intn(4000)) * time.Millisecond
					case 2:
						wait = time.Duration(r.Intn(3)) * time.Millisecond
					case 3: // about when the next one is dialled
						wait = time.Duration(1+r.Intn(3))*time.Second + time.Duration(r.Intn(2000)-1000)*time.Microsecond
					}
					// what follows ends with the connection, or with the test
					for m := r.Intn(4); m > 0; m-- {
						var x []byte
						switch r.Intn(6) {
						case 0:
							x = ref.Frame(ref.TGetPeerAddrs, []byte{0, 0, 0, byte(r.Intn(8))})
						case 1:
							x = ref.Frame(ref.TPeerAddrs, ref.EncAddrs([]ref.Addr{mkAddr(fmt.Sprintf("127.0.0.1:%d", 1+r.Intn(30)))}))
						case 2:
							x = ref.Frame(ref.TPong, make([]byte, 16))
						default:
							x = innocent(r)
						}
						if _, err := cn.Write(x); err == nil {
							atomic.AddInt64(&msgs, 1)
						}
					}
					time.Sleep(wait)
					switch r.Intn(8) {
					case 0:
						cn.Write(offence(r, "block"))
					case 1:
						cn.Write([]byte("neither this nor that"))
					case 2:
						cn.(*net.TCPConn).SetLinger(0)
					}
					cn.Close()
				}
			}()
			sy.Pool.Add(ln.Addr().String())
		}
		sys = append(sys, sy)
		go func(k int) { sy.Run(); done <- k }(k)
	}
	for time.Now().Before(end) {
		time.Sleep(200 * time.Millisecond)
	}
	for _, sy := range sys {
		go sy.Stop()
	}
	for range sys {
		select {
		case <-done:
		case <-time.After(Long):
			c.Viol("stuck", "a node does not stop\n%s", clip(stacks(), 4000))
			return
		}
	}
	for _, ln := range lns {
		ln.Close()
	}
	time.Sleep(300 * time.Millisecond)
	c.Count("dials", int(atomic.LoadInt64(&dials)))
	c.Count("messages", int(atomic.LoadInt64(&msgs)))
	c.Count("nodes", nodes)
	for i := int64(0); i < dials+msgs; i++ {
		c.Eval(fmt.Sprintf("calm %d", i))
	}
}

// ---- P12 ----

func p12read(n *node, addr string) (p06rec, bool) {
	pi := n.sy.Pool.PeerInfo(addr)
	if pi == nil {
		return p06rec{}, false
	}
	pi.Lock()
	defer pi.Unlock()
	return p06rec{pi.Height, uint64(pi.TotalDifficulty)}, true
}

func p12model(c *Ctx) {
	for round := 0; c.More(round, 60); round++ {
		n := newNode(c, nil)
		scriptVerdicts(n)
		peers := 1 + c.R.Intn(5)
		var stubs []*stub
		var conns []*sconn
		model := map[string]p06rec{}
		for k := 0; k < peers; k++ {
			td := rndU64(c.R)
			st := newStub(c, "tcp4", stubOpt{td: td})
			stubs = append(stubs, st)
			_, sc := n.direct(c, st)
			if sc == nil {
				return
			}
			conns = append(conns, sc)
			model[st.addr] = p06rec{0, td}
		}
		out := map[string]bool{}
		small := c.R.Intn(2) == 0 // values that meet often
		val := func() uint64 {
			if small {
				return uint64(c.R.Intn(4))
			}
			return rndU64(c.R)
		}
		var hist []string
		for step := 0; step < 60; step++ {
			k := c.R.Intn(peers)
			st, sc := stubs[k], conns[k]
			if out[st.addr] {
				continue
			}
			var raw []byte
			what := ""
			cur := model[st.addr]
			switch c.R.Intn(9) {
			case 0, 1:
				m := p06rec{val(), val()}
				model[st.addr] = m
				raw, what = ref.Frame(ref.TPing, ref.EncPing(m.td, m.h)), fmt.Sprintf("ping %v", m)
			case 2, 3:
				m := p06rec{val(), val()}
				model[st.addr] = m
				raw, what = ref.Frame(ref.TPong, ref.EncPing(m.td, m.h)), fmt.Sprintf("pong %v", m)
			case 4, 5:
				h := nrmHdr(c.R)
				h.Height, h.TD, h.Nonce = val(), val(), 1
				if c.R.Intn(2) == 0 { // right at the record
					h.Height, h.TD = cur.h, cur.td
					switch c.R.Intn(4) {
					case 0:
						h.Height++
					case 1:
						h.TD++
					case 2:
						h.Height--
					}
				}
				if cur.td < h.TD || cur.h < h.Height {
					model[st.addr] = p06rec{h.Height, h.TD}
				}
				raw, what = ref.Frame(ref.TBlock, ref.EncBlock(h, smallBody(c.R))), fmt.Sprintf("block %d %d", h.Height, h.TD)
			case 6:
				if c.R.Intn(3) > 0 {
					continue
				}
				raw, what = offence(c.R, "block"), "refused block"
				if c.R.Intn(2) == 0 {
					out[st.addr] = true
				} else {
					continue
				}
			default:
				typ := []uint8{ref.TPeerAddrs, ref.TGetHeaders, ref.THeader, ref.THeaders, ref.TGetBlock, ref.TCompactBlock, ref.TTransaction}[c.R.Intn(7)]
				b := validBytes(c.R, typ)
				switch typ {
				case ref.TPeerAddrs: // even the peers' own addresses
					b = ref.EncAddrs([]ref.Addr{mkAddr(stubs[c.R.Intn(peers)].addr), mkAddr(st.addr)})
				case ref.TTransaction:
					b[0] = 1
				case ref.THeader, ref.THeaders:
					h := nrmHdr(c.R)
					h.Nonce = 5
					h.Height, h.TD = 1<<62, 1<<62
					b = h.Enc()
					if typ == ref.THeaders {
						b = ref.EncHeaders([]ref.Hdr{h})
					}
				case ref.TCompactBlock:
					x := rndCompact(c.R)
					x.H = nrmHdr(c.R)
					x.H.Height, x.H.TD = 1<<62, 1<<62
					b = x.Enc()
				}
				raw, what = ref.Frame(typ, b), fmt.Sprintf("type %d", typ)
			}
			what = fmt.Sprintf("%d: %s", k, what)
			hist = append(hist, what)
			c.Case("%v", hist)
			sc.sendRaw(raw)
			if out[st.addr] {
				if !sc.waitEnd(Long) {
					c.Viol("refused", "the sender of a refused block stays connected")
					return
				}
			} else if _, ok := sc.addrs(0); !ok {
				c.Viol("served", "a peer is not served after %s", what)
				return
			}
			for _, s := range stubs {
				if out[s.addr] {
					continue
				}
				got, ok := p12read(n, s.addr)
				if !ok || got != model[s.addr] {
					sig := "other"
					if s == st {
						sig = strings.Fields(what)[1]
					}
					c.Viol("record:"+sig, "after %s the record of peer %s is %v (found %v), not %v; history %v", what, s.addr, got, ok, model[s.addr], clip(fmt.Sprint(hist), 600))
					return
				}
			}
			c.Eval(fmt.Sprintf("%d %v", peers, hist[max(0, len(hist)-6):]))
			c.Count("steps", 1)
		}
		// all at once, each its own series
		var wg sync.WaitGroup
		for k := range conns {
			if out[stubs[k].addr] {
				continue
			}
			r := subRand(c.R)
			last := p06rec{r.Uint64(), r.Uint64()}
			model[stubs[k].addr] = last
			wg.Add(1)
			go func(sc *sconn) {
				defer wg.Done()
				for m := 0; m < 20; m++ {
					sc.send(ref.TPing, ref.EncPing(r.Uint64(), r.Uint64()))
				}
				sc.send(ref.TPong, ref.EncPing(last.td, last.h))
				sc.addrs(0)
			}(conns[k])
		}
		wg.Wait()
		for _, s := range stubs {
			if got, ok := p12read(n, s.addr); !out[s.addr] && (!ok || got != model[s.addr]) {
				c.Viol("record:concurrent", "after concurrent announcements the record is %v, not %v", got, model[s.addr])
			}
			s.close()
		}
		c.Sample(clip(fmt.Sprint(hist), 200))
	}
}

func p12reconnect(c *Ctx) {
	var fs []func(*rand.Rand)
	for k := 0; k < 10; k++ {
		fs = append(fs, func(r *rand.Rand) {
			n := newNode(c, nil)
			defer n.stop(c)
			var tds []uint64
			for i := 0; i < 6; i++ {
				tds = append(tds, r.Uint64()>>uint(r.Intn(60)))
			}
			var i int32
			st := newStub(c, "tcp4", stubOpt{shake: func(ref.Hand) []byte {
				return goodShake(tds[int(atomic.AddInt32(&i, 1)-1)%len(tds)], 7)
			}})
			defer st.close()
			n.add(st.addr)
			n.run()
			for m := 0; m < 4; m++ {
				sc := st.wait(c, m+1)
				if sc == nil {
					c.Viol("nodial", "the address is not dialled (again)")
					return
				}
				if _, ok := sc.addrs(0); !ok {
					c.Viol("served", "connection %d is not served", m)
					return
				}
				got, ok := p12read(n, st.addr)
				if want := (p06rec{0, tds[m]}); !ok || got != want {
					c.Viol("record:handshake", "connection %d starts with the record %v, not %v", m, got, want)
					return
				}
				x := p06rec{r.Uint64(), r.Uint64()}
				sc.send(ref.TPing, ref.EncPing(x.td, x.h))
				sc.addrs(0)
				if got, _ := p12read(n, st.addr); got != x {
					c.Viol("record:ping", "after a ping %v the record is %v", x, got)
					return
				}
				c.Eval(fmt.Sprintf("%d %v", m, x))
				c.Count("connections", 1)
				sc.Conn.Close()
			}
		})
	}
	parallel(c, fs...)
}

// p12glued: an announcement that comes with the shake, in one segment.
func p12glued(c *Ctx) {
	var fs []func(*rand.Rand)
	for k := 0; k < 12; k++ {
		k := k
		fs = append(fs, func(r *rand.Rand) {
			n := newNode(c, nil)
			defer n.stop(c)
			some := func() uint64 {
				if r.Intn(3) == 0 {
					return uint64(r.Intn(2))
				}
				return r.Uint64() >> uint(r.Intn(60))
			}
			var stubs []*stub
			var want []p06rec
			for m := 0; m < 6; m++ {
				td := some()
				var x p06rec
				raw := goodShake(td, 7)
				for j := 0; j < 1+r.Intn(3); j++ {
					x = p06rec{some(), some()}
					var typ uint8 = ref.TPing
					if (k+j)%2 == 0 {
						typ = ref.TPong
					}
					raw = append(raw, ref.Frame(typ, ref.EncPing(x.td, x.h))...)
				}
				st := newStub(c, "tcp4", stubOpt{shake: func(ref.Hand) []byte { return raw }})
				defer st.close()
				stubs, want = append(stubs, st), append(want, x)
				n.add(st.addr)
			}
			n.run()
			for m, st := range stubs {
				sc := st.wait(c, 1)
				if sc == nil {
					c.Viol("nodial", "the address is not dialled")
					return
				}
				if _, ok := sc.addrs(0); !ok {
					c.Viol("served", "connection %d is not served", m)
					return
				}
			}
			for t := 0; t < 4; t++ {
				for m, st := range stubs {
					if got, ok := p12read(n, st.addr); !ok || got != want[m] {
						c.Viol("record:glued", "%v announced with the shake, the record is %v", want[m], got)
						return
					}
				}
				time.Sleep(time.Duration(100*t) * time.Millisecond)
			}
			for m := range stubs {
				c.Eval(fmt.Sprint(k, want[m]))
			}
			c.Count("connections", len(stubs))
		})
	}
	parallel(c, fs...)
}

// p12relay: what the node sends to a peer is no announcement of that peer.
func p12relay(c *Ctx) {
	var fs []func(*rand.Rand)
	for k := 0; k < 8; k++ {
		fs = append(fs, func(r *rand.Rand) {
			n := newNode(c, nil)
			defer n.stop(c)
			n.ch.onBlock = func(b *consensus.Block) error {
				n.ch.set(uint64(b.Header.TotalDifficulty), b.Header.Height)
				return nil
			}
			var stubs []*stub
			var conns []*sconn
			var model []p06rec
			for i := 0; i < 3+r.Intn(3); i++ {
				st := newStub(c, "tcp4", stubOpt{td: uint64(1 + r.Intn(100))})
				defer st.close()
				stubs = append(stubs, st)
				n.add(st.addr)
			}
			n.run()
			for _, st := range stubs {
				sc := st.wait(c, 1)
				if sc == nil {
					c.Viol("nodial", "a known address is not dialled")
					return
				}
				if _, ok := sc.addrs(0); !ok {
					c.Viol("served", "a peer is not served")
					return
				}
				conns = append(conns, sc)
				model = append(model, p06rec{0, st.opt.td})
			}
			for m := 0; m < 12; m++ {
				k := r.Intn(len(conns))
				h := nrmHdr(r)
				h.Height, h.TD, h.Nonce = uint64(10+m), uint64(1000+10*m), 1
				if r.Intn(3) == 0 { // lower than some
					h.Height -= uint64(r.Intn(5))
				}
				raw := ref.Frame(ref.TBlock, ref.EncBlock(h, smallBody(r)))
				if r.Intn(2) == 0 { // one announces something else first
					x := r.Intn(len(conns))
					model[x] = p06rec{uint64(r.Intn(30)), uint64(r.Intn(1200))}
					conns[x].send(ref.TPing, ref.EncPing(model[x].td, model[x].h))
					conns[x].addrs(0)
				}
				c.Case("block %d/%d from %d, records %v", h.Height, h.TD, k, model)
				conns[k].sendRaw(raw)
				if _, ok := conns[k].addrs(0); !ok {
					c.Viol("served", "the sender of an accepted block is not served")
					return
				}
				if model[k].td < h.TD || model[k].h < h.Height {
					model[k] = p06rec{h.Height, h.TD}
				}
				for x := range conns {
					if model[x].h < h.Height || model[x].td < h.TD {
						Wait(Long, func() bool { return countRaw(conns[x], raw) > 0 }) // P06 judges this
						c.Count("relayed", 1)
					}
				}
				Wait(5*time.Second, relayQuiet)
				for x, st := range stubs {
					if _, ok := conns[x].addrs(0); !ok {
						c.Viol("served", "a peer is not served after a relay")
						return
					}
					if got, ok := p12read(n, st.addr); !ok || got != model[x] {
						c.Viol("record:relay", "after block %d/%d from peer %d was relayed, the record of peer %d is %v, not %v", h.Height, h.TD, k, x, got, model[x])
						return
					}
				}
				c.Eval(fmt.Sprintf("%d/%d %d %v", h.Height, h.TD, k, model))
			}
		})
	}
	parallel(c, fs...)
}

// ---- P13 ----

// p13dial: calls and services go on while a dial is pending.
func p13dial(c *Ctx) {
	slowShake := func(step time.Duration) func(*sconn) {
		return func(sc *sconn) {
			b := goodShake(1, 7)
			for _, x := range b[:len(b)-1] {
				time.Sleep(step)
				if _, err := sc.Conn.Write([]byte{x}); err != nil {
					return
				}
			}
		}
	}
	nothing := func(ref.Hand) []byte { return nil }
	half := func(ref.Hand) []byte { b := goodShake(1, 7); return b[:len(b)/2] }
	lie := func(ref.Hand) []byte {
		f := ref.Frame(ref.TShake, []byte("abc"))
		binary.BigEndian.PutUint64(f[3:], 10000000)
		return f
	}
	kinds := []struct {
		name string
		opt  stubOpt
	}{{"mute", stubOpt{mute: true}}, {"half a shake", stubOpt{shake: half}}, {"no shake", stubOpt{shake: nothing}},
		{"drip", stubOpt{shake: nothing, onConn: slowShake(900 * time.Millisecond)}}, {"endless shake", stubOpt{shake: lie}}}
	var fs []func(*rand.Rand)
	for _, kd := range kinds {
		kd := kd
		fs = append(fs, func(r *rand.Rand) {
			n := newNode(c, nil)
			defer n.stop(c)
			a, b := newStub(c, "tcp4", stubOpt{}), newStub(c, "tcp4", stubOpt{})
			defer a.close()
			defer b.close()
			n.add(a.addr)
			n.add(b.addr)
			n.run()
			as, bsc := a.wait(c, 1), b.wait(c, 1)
			if as == nil || bsc == nil {
				c.Viol("nodial", "known addresses are not dialled")
				return
			}
			as.addrs(0)
			bsc.addrs(0)
			seq := uint64(0)
			ops := []struct {
				name string
				f    func(st *stub) bool
			}{
				{"listing addresses", func(*stub) bool { n.sy.Pool.Peers(0); return true }},
				{"adding an address", func(*stub) bool { n.sy.Pool.Add("10.9.9.9:0"); n.sy.Pool.Add(a.addr); return true }},
				{"looking up a peer", func(st *stub) bool {
					if pi := n.sy.Pool.PeerInfo(st.addr); pi != nil {
						pi.Lock()
						pi.Unlock()
					}
					return true
				}},
				{"answering pings", func(*stub) bool { return as.ping(c, 1, 1) && bsc.ping(c, 1, 1) }},
				{"answering address requests", func(*stub) bool { _, ok := as.addrs(0); return ok }},
				{"asking for a ban", func(*stub) bool { n.pool.IsBan(a.addr); return true }},
				{"relaying a block", func(*stub) bool {
					seq++
					h := nrmHdr(r)
					h.Height, h.TD = 1<<40+seq, 1<<41+seq
					raw := ref.Frame(ref.TBlock, ref.EncBlock(h, ref.Body{}))
					n.ch.set(1, h.Height)
					as.sendRaw(raw)
					return Wait(Long, func() bool { return countRaw(bsc, raw) == 1 })
				}},
			}
			for _, op := range ops {
				op := op
				good := false
				took := time.Duration(0)
				for try := 0; try < 3 && !good; try++ {
					st := newStub(c, "tcp4", kd.opt)
					n.add(st.addr)
					if !Wait(Long, func() bool { return atomic.LoadInt32(&st.dials) > 0 }) {
						c.Viol("nodial", "after %s the node dials no more (%s)", op.name, kd.name)
						st.close()
						return
					}
					c.Case("%s while dialling a peer with %s", op.name, kd.name)
					start := time.Now()
					ok, p := Guard(Long, func() {
						if !op.f(st) {
							c.Viol("served:"+op.name, "%s fails while the node dials a peer with %s", op.name, kd.name)
						}
					})
					took = time.Since(start)
					pending := atomic.LoadInt32(&st.open) > 0
					if p != "" {
						c.Viol("panic", "%s: %s", op.name, p)
					}
					good = ok && (pending || took < time.Second)
					if pending {
						c.Count("done_while_pending", 1)
					}
					n.sy.Pool.Ban(st.addr)
					st.close()
				}
				if !good {
					c.Viol("held:"+op.name, "%s waits (%v) for the dial of a peer with %s to end", op.name, took, kd.name)
					return
				}
				c.Eval(kd.name + op.name)
			}
		})
		// the stalled peer stays; others get dialled all the same
		fs = append(fs, func(r *rand.Rand) {
			n := newNode(c, nil)
			defer n.stop(c)
			for k := 0; k < 2; k++ {
				st := newStub(c, "tcp4", kd.opt)
				defer st.close()
				n.add(st.addr)
			}
			n.run()
			time.Sleep(500 * time.Millisecond)
			for k := 0; k < 3; k++ {
				st := newStub(c, "tcp4", stubOpt{})
				defer st.close()
				n.add(st.addr)
				if st.wait(c, 1) == nil {
					c.Viol("starved:"+kd.name, "an address is not dialled within %v while others stall with %s", Long, kd.name)
					return
				}
				c.Eval(fmt.Sprintf("starve %s %d", kd.name, k))
			}
		})
	}
	parallel(c, fs...)
}

// p13stall: connected peers that stall.
func p13stall(c *Ctx) {
	kinds := []string{"half header", "half body", "not reading", "not reading its pongs", "not reading anything", "silent"}
	var fs []func(*rand.Rand)
	for _, kind := range kinds {
		kind := kind
		fs = append(fs, func(r *rand.Rand) {
			n := newNode(c, nil)
			defer n.stop(c)
			var bb ref.Body
			for k := 0; k < 40; k++ {
				bb.Outs = append(bb.Outs, rndOut(r))
			}
			bb.Outs = uniqueOuts(bb.Outs)
			opt := stubOpt{}
			if strings.HasPrefix(kind, "not") {
				opt.noRead = true
				if kind == "not reading" {
					opt.rcvbuf = 4096 // with more to read it would hold up our own requests, too
				}
			}
			var asked int64
			var stalled []*stub
			for k := 0; k < 2; k++ {
				st := newStub(c, "tcp4", opt)
				defer st.close()
				stalled = append(stalled, st)
				n.add(st.addr)
			}
			a, b := newStub(c, "tcp4", stubOpt{}), newStub(c, "tcp4", stubOpt{})
			defer a.close()
			defer b.close()
			n.add(a.addr)
			n.add(b.addr)
			hb := nrmHdr(r)
			n.ch.mu.Lock()
			id := hb.ID()
			n.ch.blocks[string(id[:])] = toBlock(hb, bb)
			n.ch.mu.Unlock()
			n.run()
			as, bsc := a.wait(c, 1), b.wait(c, 1)
			var ss []*sconn
			for _, st := range stalled {
				ss = append(ss, st.wait(c, 1))
			}
			if as == nil || bsc == nil || ss[0] == nil || ss[1] == nil {
				c.Viol("nodial", "known addresses are not dialled")
				return
			}
			for _, sc := range ss {
				sc := sc
				switch kind {
				case "half header":
					sc.sendRaw(ref.Frame(ref.TPing, nil)[:5])
				case "half body":
					f := ref.Frame(ref.TBlock, ref.EncBlock(nrmHdr(r), bb))
					sc.sendRaw(f[:len(f)/2])
				case "not reading its pongs":
					go func() {
						f := bytes.Repeat(ref.Frame(ref.TPing, ref.EncPing(0, 0)), 100)
						for sc.sendRaw(f) == nil {
							atomic.AddInt64(&asked, 1)
						}
					}()
				case "not reading anything":
					go func() {
						f := bytes.Repeat(ref.Frame(ref.TGetBlock, id[:]), 50)
						for sc.sendRaw(f) == nil {
							atomic.AddInt64(&asked, 1)
						}
					}()
				}
			}
			time.Sleep(300 * time.Millisecond)
			if strings.HasPrefix(kind, "not reading ") {
				// until the node takes no more of their requests
				last := int64(-1)
				if Wait(30*time.Second, func() bool {
					k := atomic.LoadInt64(&asked)
					same := k == last
					last = k
					time.Sleep(1500 * time.Millisecond)
					return same && atomic.LoadInt64(&asked) == k
				}) {
					c.Count("stalls_complete", 1)
				}
			}
			for k := 0; k < 120; k++ {
				h := nrmHdr(r)
				h.Height, h.TD = 1<<40+uint64(k), 1<<41+uint64(k)
				raw := ref.Frame(ref.TBlock, ref.EncBlock(h, bb))
				c.Case("block %d while peers stall: %s", k, kind)
				if ok, _ := Guard(Long, func() { n.ch.Lock(); n.ch.Unlock(); n.ch.set(1, h.Height) }); !ok {
					c.Viol("chain:"+kind, "the chain stays locked while peers stall (%s)\n%s", kind, clip(stacks(), 3000))
					return
				}
				from, to := as, bsc
				if k%2 == 1 {
					from, to = bsc, as
				}
				from.sendRaw(raw)
				if !Wait(Long, func() bool { return countRaw(to, raw) == 1 }) {
					c.Viol("relay:"+kind, "block %d does not reach a healthy peer while others stall (%s)\n%s", k, kind, clip(stacks(), 3000))
					return
				}
				if k%10 == 0 {
					if !as.ping(c, h.TD, h.Height) || !bsc.ping(c, h.TD-1, h.Height-1) {
						c.Viol("served:"+kind, "healthy peers are not served while others stall (%s)\n%s", kind, clip(stacks(), 3000))
						return
					}
					as.ping(c, 0, 0)
					bsc.ping(c, 0, 0)
					if ok, p := Guard(Long, func() { n.sy.Pool.Peers(0); n.sy.Pool.Add("10.9.9.9:0"); n.sy.Pool.PeerInfo(a.addr) }); !ok || p != "" {
						c.Viol("pool:"+kind, "the pool does not answer while peers stall (%s) %s\n%s", kind, p, clip(stacks(), 3000))
						return
					}
					if _, ok := as.addrs(0); !ok {
						c.Viol("served:"+kind, "an address request is not answered while others stall (%s)", kind)
						return
					}
				}
				c.Eval(fmt.Sprintf("%s %d", kind, k))
				c.Count("relayed_while_stalled", 1)
			}
			more := newStub(c, "tcp4", stubOpt{})
			defer more.close()
			n.add(more.addr)
			if more.wait(c, 1) == nil {
				c.Viol("starved:"+kind, "an address is not dialled while peers stall (%s)", kind)
				return
			}
			if ok, p := Guard(Long, func() { n.sy.Pool.Ban(stalled[0].addr) }); !ok || p != "" {
				c.Viol("ban:"+kind, "a stalled peer cannot be banned (%s) %s", kind, p)
			}
			if !as.ping(c, 1, 1) {
				c.Viol("served:"+kind, "a healthy peer is not served after the ban of a stalled one")
			}
			c.Sample(kind)
		})
	}
	reps := 1
	if c.Thorough {
		reps = 6
	}
	for ; reps > 0; reps-- {
		parallel(c, fs...)
	}
}

func init() {
	register(&Prop{ID: "P09", Min: 4000,
		Rule:   "one evaluation is one handshake attempt judged for outcome, record, answer and socket; distinct by the bytes of the other side",
		Assume: []string{"where a job says nothing else, genesis hash and protocol version are those of Testnet4, version 1"},
		Jobs:   []Job{{Name: "dial", Fn: p09dial}, {Name: "accept", Fn: p09accept}, {Name: "two", Fn: p09two}, {Name: "networks", Fn: p09networks}}})
	register(&Prop{ID: "P10", Min: 60,
		Rule:   "one evaluation is one node stopped in one state or moment with run call, dials, sockets and goroutines accounted for; distinct by state or moment",
		Assume: []string{fmt.Sprintf("what has not ended after %v never ends", Long), "one dial may have been under way when the stop was requested"},
		Jobs:   []Job{{Name: "states", Fn: p10job("")}, {Name: "crowd", MapRace: true, Fn: p10job("crowd")}, {Name: "moments", Fn: p10moments}, {Name: "ticks", Fn: p10ticks}}})
	register(&Prop{ID: "P11", Min: 5000,
		Rule:   "one evaluation is one operation or message of the concurrent workload executed under the race detector",
		Assume: []string{"the race detector sees the accesses that were executed"},
		Jobs:   []Job{{Name: "loop", Race: true, Fn: p11job(false, true, 25)}, {Name: "direct", Race: true, Fn: p11job(false, false, 20)}, {Name: "real", Race: true, Fn: p11job(true, true, 25)}, {Name: "calm", Race: true, Fn: p11calm}, {Name: "program", Fn: programJob("P11", true)}}})
	register(&Prop{ID: "P12", Min: 1500,
		Rule:   "one evaluation is one acknowledged message after which the records of all peers are compared with the model; distinct by recent history",
		Assume: []string{"a reply to an address request means that earlier messages of that connection are processed"},
		Jobs:   []Job{{Name: "model", Fn: p12model}, {Name: "reconnect", Fn: p12reconnect}, {Name: "glued", Fn: p12glued}, {Name: "relay", Fn: p12relay}}})
	register(&Prop{ID: "P13", Min: 500,
		Rule:   "one evaluation is one service rendered to a healthy peer or caller while others stall; distinct by stall and service",
		Assume: []string{fmt.Sprintf("what has not happened within %v never happens", Long)},
		Jobs:   []Job{{Name: "dial", Fn: p13dial}, {Name: "stall", Fn: p13stall}}})
}
