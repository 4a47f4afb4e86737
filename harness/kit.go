package main

import (
	"bytes"
	"embed"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/dblokhin/gringo/chain"
	"github.com/dblokhin/gringo/consensus"
	"github.com/dblokhin/gringo/p2p"

	"verif/ref"
)

//go:embed fixtures/*.hex
var fixtureFS embed.FS

func fixture(name string) []byte {
	b, err := fixtureFS.ReadFile("fixtures/" + name + ".hex")
	if err != nil {
		panic(err)
	}
	x, err := hex.DecodeString(strings.TrimSpace(string(b)))
	if err != nil {
		panic(err)
	}
	return x
}

// Long is the watchdog of single operations; a healthy one takes milliseconds.
const Long = 45 * time.Second

// ---- scripted remote peer ----

type frame struct {
	typ  uint8
	body []byte
	raw  []byte
}

func parseFrame(b []byte) (f frame, ok bool) {
	if len(b) < 11 || b[0] != ref.Magic[0] || b[1] != ref.Magic[1] {
		return f, false
	}
	n := binary.BigEndian.Uint64(b[3:])
	if n != uint64(len(b)-11) {
		return f, false
	}
	return frame{b[2], b[11:], b}, true
}

type stubOpt struct {
	// shake makes the raw answer to a hand; nil answers a plain valid shake.
	shake func(ref.Hand) []byte
	// mute accepts and reads nothing, answers nothing.
	mute bool
	// noRead completes the handshake but then never reads.
	noRead bool
	// onConn runs after the handshake.
	onConn func(*sconn)
	// onFrame runs for each received frame, in order.
	onFrame func(*sconn, frame)
	td      uint64
	caps    uint32
	rcvbuf  int
	addr    string
	// named listens where a name resolves to.
	named bool
}

type stub struct {
	ln    net.Listener
	addr  string
	opt   stubOpt
	mu    sync.Mutex
	conns []*sconn
	raw   []net.Conn
	gone  map[int]bool // which of raw have ended
	// dials counts accepted connections, open the ones not yet ended
	dials, open, maxOpen int32
	closed               bool
}

type sconn struct {
	net.Conn
	st      *stub
	hand    ref.Hand
	handRaw []byte
	mu      sync.Mutex
	cond    *sync.Cond
	q       []frame // not yet taken by recv
	all     []frame
	bad     string // why the stream stopped being frames
	ended   bool
	wmu     sync.Mutex
}

func haveV6() bool {
	l, err := net.Listen("tcp6", "[::1]:0")
	if err != nil {
		return false
	}
	l.Close()
	return true
}

// loopIP is a loopback address of this process alone: a node of another process (another
// job, another check) may still dial an address on which something was, and must not
// find the stubs of this one there.
var loopIP = func() string {
	x := uint64(os.Getpid())<<20 ^ uint64(time.Now().UnixNano())
	x *= 0x9e3779b97f4a7c15
	return fmt.Sprintf("127.%d.%d.%d", 1+(x>>56)%254, 1+(x>>48)&0xff%254, 1+(x>>40)&0xff%254)
}()

var usedMu sync.Mutex
var usedAddrs = map[string]bool{}

func newStub(c *Ctx, network string, opt stubOpt) *stub {
	at := loopIP + ":0"
	if opt.named {
		at = "127.0.0.1:0"
	}
	if network == "tcp6" {
		at = "[::1]:0"
	}
	if opt.addr != "" {
		at = opt.addr
	}
	ln, err := net.Listen(network, at)
	for opt.addr == "" && err == nil {
		// no address is used twice in a process: the node remembers them
		usedMu.Lock()
		old := usedAddrs[ln.Addr().String()]
		usedAddrs[ln.Addr().String()] = true
		usedMu.Unlock()
		if !old {
			break
		}
		defer ln.Close()
		ln, err = net.Listen(network, at)
	}
	if err != nil {
		c.Fail("listen: %v", err)
		c.flush(true)
		panic("listen: " + err.Error())
	}
	st := &stub{ln: ln, addr: ln.Addr().String(), opt: opt, gone: map[int]bool{}}
	go st.loop()
	return st
}

func (st *stub) loop() {
	for {
		cn, err := st.ln.Accept()
		if err != nil {
			return
		}
		n := atomic.AddInt32(&st.open, 1)
		for {
			m := atomic.LoadInt32(&st.maxOpen)
			if n <= m || atomic.CompareAndSwapInt32(&st.maxOpen, m, n) {
				break
			}
		}
		atomic.AddInt32(&st.dials, 1)
		st.mu.Lock()
		if st.closed {
			cn.Close()
		}
		st.raw = append(st.raw, cn)
		id := len(st.raw) - 1
		st.mu.Unlock()
		go func() {
			st.serve(cn)
			st.mu.Lock()
			st.gone[id] = true
			st.mu.Unlock()
		}()
	}
}

func goodShake(td uint64, caps uint32) []byte { return shakeOn(td, caps, ref.Testnet4Genesis) }

// shakeOn is a shake of a peer on the network of the genesis block.
func shakeOn(td uint64, caps uint32, genesis [32]byte) []byte {
	if caps == 0 {
		caps = 7
	}
	sh := ref.Shake{Version: 1, Caps: caps, TD: td, UA: "stub", Genesis: genesis}
	return ref.Frame(ref.TShake, sh.Enc())
}

func readFrame(r io.Reader) (f frame, err error) {
	var h [11]byte
	if _, err = io.ReadFull(r, h[:]); err != nil {
		return
	}
	n := binary.BigEndian.Uint64(h[3:])
	if h[0] != ref.Magic[0] || h[1] != ref.Magic[1] || n > ref.MaxMsg {
		return f, fmt.Errorf("not a frame: %x", h)
	}
	b := make([]byte, n)
	if k, err := io.ReadFull(r, b); err != nil {
		return f, fmt.Errorf("frame of type %d cut after %d of %d bytes: %w", h[2], k, n, err)
	}
	return frame{h[2], b, append(h[:], b...)}, nil
}

func (st *stub) serve(cn net.Conn) {
	defer atomic.AddInt32(&st.open, -1)
	if st.opt.rcvbuf > 0 {
		cn.(*net.TCPConn).SetReadBuffer(st.opt.rcvbuf)
	}
	if st.opt.mute {
		io.Copy(io.Discard, cn)
		cn.Close()
		return
	}
	sc := &sconn{Conn: cn, st: st}
	sc.cond = sync.NewCond(&sc.mu)
	f, err := readFrame(cn)
	if err != nil {
		cn.Close()
		return
	}
	sc.handRaw = f.raw
	sc.hand, err = ref.DecHand(f.body)
	if f.typ != ref.THand || err != nil {
		sc.bad = fmt.Sprintf("first message is no hand: %d %v", f.typ, err)
	}
	sh := shakeOn(st.opt.td, st.opt.caps, sc.hand.Genesis)
	if st.opt.shake != nil {
		sh = st.opt.shake(sc.hand)
	}
	if sh != nil {
		cn.Write(sh)
	}
	st.mu.Lock()
	st.conns = append(st.conns, sc)
	st.mu.Unlock()
	if st.opt.onConn != nil {
		go st.opt.onConn(sc)
	}
	if st.opt.noRead {
		sc.mu.Lock()
		for !sc.ended {
			sc.cond.Wait()
		}
		sc.mu.Unlock()
		return
	}
	for {
		f, err := readFrame(cn)
		if err != nil {
			sc.mu.Lock()
			if !errors.Is(err, io.EOF) && !errors.Is(err, net.ErrClosed) && strings.Contains(err.Error(), "frame") {
				sc.bad = err.Error()
			}
			sc.ended = true
			sc.cond.Broadcast()
			sc.mu.Unlock()
			cn.Close()
			return
		}
		sc.mu.Lock()
		sc.q = append(sc.q, f)
		sc.all = append(sc.all, f)
		sc.cond.Broadcast()
		sc.mu.Unlock()
		if st.opt.onFrame != nil {
			st.opt.onFrame(sc, f)
		}
	}
}

func (st *stub) connList() []*sconn {
	st.mu.Lock()
	defer st.mu.Unlock()
	return append([]*sconn(nil), st.conns...)
}

// wait waits for the n-th completed handshake.
func (st *stub) wait(c *Ctx, n int) *sconn {
	if !Wait(Long, func() bool { return len(st.connList()) >= n }) {
		return nil
	}
	return st.connList()[n-1]
}

func (st *stub) close() {
	st.ln.Close()
	st.mu.Lock()
	defer st.mu.Unlock()
	st.closed = true
	for _, c := range st.raw {
		c.Close()
	}
	for _, sc := range st.conns {
		sc.mu.Lock()
		sc.ended = true
		sc.cond.Broadcast()
		sc.mu.Unlock()
	}
}

func (sc *sconn) send(typ uint8, body []byte) error { return sc.sendRaw(ref.Frame(typ, body)) }

func (sc *sconn) sendRaw(b []byte) error {
	sc.wmu.Lock()
	defer sc.wmu.Unlock()
	_, err := sc.Write(b)
	return err
}

// recv takes the next frame.
func (sc *sconn) recv(limit time.Duration) (frame, bool) {
	end := time.Now().Add(limit)
	t := time.AfterFunc(limit, func() { sc.mu.Lock(); sc.cond.Broadcast(); sc.mu.Unlock() })
	defer t.Stop()
	sc.mu.Lock()
	defer sc.mu.Unlock()
	for len(sc.q) == 0 && !sc.ended && time.Now().Before(end) {
		sc.cond.Wait()
	}
	if len(sc.q) == 0 {
		return frame{}, false
	}
	f := sc.q[0]
	sc.q = sc.q[1:]
	return f, true
}

// recvType takes frames until one of the type comes.
func (sc *sconn) recvType(typ uint8, limit time.Duration) (frame, bool) {
	for {
		f, ok := sc.recv(limit)
		if !ok || f.typ == typ {
			return f, ok
		}
	}
}

// ping sends a ping and waits for its pong; false when the connection ended instead.
func (sc *sconn) ping(c *Ctx, td, height uint64) bool {
	if sc.send(ref.TPing, ref.EncPing(td, height)) != nil {
		return false
	}
	_, ok := sc.recvType(ref.TPong, Long)
	return ok
}

// drain waits for a pong as a barrier and returns everything received before it.
func (sc *sconn) drain(c *Ctx, td, height uint64) (fs []frame, ok bool) {
	if sc.send(ref.TPing, ref.EncPing(td, height)) != nil {
		return nil, false
	}
	for {
		f, ok := sc.recv(Long)
		if !ok {
			return fs, false
		}
		if f.typ == ref.TPong {
			return fs, true
		}
		fs = append(fs, f)
	}
}

func (sc *sconn) frames() []frame {
	sc.mu.Lock()
	defer sc.mu.Unlock()
	return append([]frame(nil), sc.all...)
}

func (sc *sconn) isEnded() bool {
	sc.mu.Lock()
	defer sc.mu.Unlock()
	return sc.ended
}

func (sc *sconn) waitEnd(limit time.Duration) bool {
	return Wait(limit, sc.isEnded)
}

// ---- in-memory connection ----

type memConn struct {
	mu     sync.Mutex
	in     *bytes.Reader
	out    bytes.Buffer
	closed bool
	read   int
}

func newMemConn(in []byte) *memConn { return &memConn{in: bytes.NewReader(in)} }

func (m *memConn) Read(b []byte) (int, error) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.closed {
		return 0, net.ErrClosed
	}
	n, err := m.in.Read(b)
	m.read += n
	return n, err
}
func (m *memConn) Write(b []byte) (int, error) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.closed {
		return 0, net.ErrClosed
	}
	return m.out.Write(b)
}
func (m *memConn) Close() error { m.mu.Lock(); defer m.mu.Unlock(); m.closed = true; return nil }
func (m *memConn) LocalAddr() net.Addr {
	return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 3414}
}
func (m *memConn) RemoteAddr() net.Addr {
	return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 3415}
}
func (m *memConn) SetDeadline(time.Time) error      { return nil }
func (m *memConn) SetReadDeadline(time.Time) error  { return nil }
func (m *memConn) SetWriteDeadline(time.Time) error { return nil }
func (m *memConn) left() int                        { m.mu.Lock(); defer m.mu.Unlock(); return m.in.Len() }
func (m *memConn) written() []byte {
	m.mu.Lock()
	defer m.mu.Unlock()
	return append([]byte(nil), m.out.Bytes()...)
}
func (m *memConn) isClosed() bool { m.mu.Lock(); defer m.mu.Unlock(); return m.closed }

// ---- fake chain and pool ----

// fakeChain answers by script and records what it was asked.
type fakeChain struct {
	sync.RWMutex
	mu       sync.Mutex
	gen      consensus.Block
	td       uint64
	height   uint64
	headers  func(loc consensus.Locator) []consensus.BlockHeader
	blocks   map[string]*consensus.Block
	onHdrs   func(hs []consensus.BlockHeader) error
	onBlock  func(b *consensus.Block) error
	nHdrs    int
	nBlocks  int
	gotHdrs  [][]consensus.BlockHeader
	gotBlock []*consensus.Block
	slow     time.Duration // how long TotalDifficulty takes
	during   func(string)  // runs inside every question, named
}

func (f *fakeChain) inside(what string) {
	f.mu.Lock()
	fn := f.during
	f.mu.Unlock()
	if fn != nil {
		fn(what)
	}
}

var acceptorOnce sync.Once
var acceptor *p2p.Syncer

// acceptPeer takes the accepting part of a handshake on Testnet4.
func acceptPeer(cn net.Conn) (*p2p.Peer, error) {
	acceptorOnce.Do(func() { acceptor = p2p.NewSyncer(nil, newFakeChain(), nil) })
	return acceptAs(acceptor, cn)
}

// acceptAs takes the accepting part of a handshake for a node; before it was repaired
// the function was not told whose.
func acceptAs(sy *p2p.Syncer, cn net.Conn) (*p2p.Peer, error) {
	switch f := interface{}(p2p.AcceptNewPeer).(type) {
	case func(*p2p.Syncer, net.Conn) (*p2p.Peer, error):
		return f(sy, cn)
	case func(net.Conn) (*p2p.Peer, error):
		return f(cn)
	}
	panic("AcceptNewPeer has an unknown signature")
}

func newFakeChain() *fakeChain {
	return &fakeChain{gen: chain.Testnet4, td: 1000, height: 10, blocks: map[string]*consensus.Block{}}
}

func (f *fakeChain) Genesis() consensus.Block { return f.gen }
func (f *fakeChain) set(td, h uint64) {
	f.Lock()
	f.mu.Lock()
	f.td, f.height = td, h
	f.mu.Unlock()
	f.Unlock()
}
func (f *fakeChain) TotalDifficulty() consensus.Difficulty {
	f.inside("td")
	f.mu.Lock()
	defer func() {
		f.mu.Unlock()
		if f.slow > 0 {
			time.Sleep(f.slow)
		}
	}()
	return consensus.Difficulty(f.td)
}
func (f *fakeChain) Height() uint64 {
	f.inside("height")
	f.mu.Lock()
	defer f.mu.Unlock()
	return f.height
}
func (f *fakeChain) GetBlockHeaders(loc consensus.Locator) []consensus.BlockHeader {
	f.inside("headers")
	f.mu.Lock()
	fn := f.headers
	f.mu.Unlock()
	if fn == nil {
		return nil
	}
	return fn(loc)
}
func (f *fakeChain) GetBlock(hash consensus.Hash) *consensus.Block {
	f.inside("getblock")
	f.mu.Lock()
	defer f.mu.Unlock()
	return f.blocks[string(hash)]
}
func (f *fakeChain) ProcessHeaders(hs []consensus.BlockHeader) error {
	f.inside("newheaders")
	f.mu.Lock()
	f.nHdrs++
	f.gotHdrs = append(f.gotHdrs, hs)
	fn := f.onHdrs
	f.mu.Unlock()
	if fn != nil {
		return fn(hs)
	}
	return nil
}
func (f *fakeChain) ProcessBlock(b *consensus.Block) error {
	f.inside("newblock")
	f.mu.Lock()
	f.nBlocks++
	f.gotBlock = append(f.gotBlock, b)
	fn := f.onBlock
	f.mu.Unlock()
	if fn != nil {
		return fn(b)
	}
	return nil
}

type fakeMempool struct {
	mu  sync.Mutex
	n   int
	txs []*consensus.Transaction
	on  func(*consensus.Transaction) error
}

func (m *fakeMempool) ProcessTx(t *consensus.Transaction) error {
	m.mu.Lock()
	m.n++
	m.txs = append(m.txs, t)
	fn := m.on
	m.mu.Unlock()
	if fn != nil {
		return fn(t)
	}
	return nil
}

// recPool records the calls the node makes on its pool.
type recPool struct {
	p2p.PeersPool
	mu   sync.Mutex
	adds []string
	bans []string
	prop []*consensus.Block
}

func (p *recPool) Add(a string) {
	p.mu.Lock()
	p.adds = append(p.adds, a)
	p.mu.Unlock()
	p.PeersPool.Add(a)
}
func (p *recPool) Ban(a string) {
	p.mu.Lock()
	p.bans = append(p.bans, a)
	p.mu.Unlock()
	p.PeersPool.Ban(a)
}
func (p *recPool) PropagateBlock(b *consensus.Block) {
	p.mu.Lock()
	p.prop = append(p.prop, b)
	p.mu.Unlock()
	p.PeersPool.PropagateBlock(b)
}
func (p *recPool) added() []string {
	p.mu.Lock()
	defer p.mu.Unlock()
	return append([]string(nil), p.adds...)
}
func (p *recPool) banned() []string {
	p.mu.Lock()
	defer p.mu.Unlock()
	return append([]string(nil), p.bans...)
}

// IsBan asks the real pool whether an address is banned.
func (p *recPool) IsBan(a string) bool {
	if q, ok := p.PeersPool.(interface{ IsBan(string) bool }); ok {
		return q.IsBan(a)
	}
	return false
}

// ---- node under test ----

type node struct {
	sy      *p2p.Syncer
	ch      *fakeChain
	mp      *fakeMempool
	pool    *recPool
	runOnce sync.Once
	running int32
	runDone chan string
	stopped bool
}

type nodeOpt struct {
	noMempool bool
	chain     p2p.Blockchain
}

func newNode(c *Ctx, opt *nodeOpt) *node {
	if opt == nil {
		opt = &nodeOpt{}
	}
	n := &node{ch: newFakeChain(), mp: &fakeMempool{}, runDone: make(chan string, 1)}
	var bc p2p.Blockchain = n.ch
	if opt.chain != nil {
		bc = opt.chain
	}
	if opt.noMempool {
		n.sy = p2p.NewSyncer(nil, bc, nil)
	} else {
		n.sy = p2p.NewSyncer(nil, bc, n.mp)
	}
	n.pool = &recPool{PeersPool: n.sy.Pool}
	n.sy.Pool = n.pool
	return n
}

func (n *node) add(a string) { n.sy.Pool.Add(a) }

func (n *node) run() {
	n.runOnce.Do(func() {
		atomic.StoreInt32(&n.running, 1)
		go func() {
			n.sy.Run()
			n.runDone <- ""
		}()
	})
}

// dial lets the node connect to the stub through its own run loop.
func (n *node) dial(c *Ctx, st *stub) *sconn {
	before := len(st.connList())
	n.run()
	sc := st.wait(c, before+1)
	if sc == nil {
		c.Viol("nodial", "the node did not connect to a known address within %v\n%s", Long, clip(stacks(), 2500))
	}
	return sc
}

// direct connects without the run loop, recording the peer as the loop would.
func (n *node) direct(c *Ctx, st *stub) (*p2p.Peer, *sconn) {
	before := len(st.connList())
	n.add(st.addr)
	p, err := p2p.NewPeer(n.sy, st.addr)
	if err != nil {
		c.Fail("direct dial: %v", err)
		return nil, nil
	}
	if pi := n.sy.Pool.PeerInfo(st.addr); pi != nil {
		pi.Lock()
		pi.Peer = p
		pi.TotalDifficulty = p.Info.TotalDifficulty
		pi.Height = p.Info.Height
		pi.Unlock()
	}
	p.Start()
	return p, st.wait(c, before+1)
}

// stop stops the node; it reports trouble only when told to judge it.
func (n *node) stop(c *Ctx) bool {
	if n.stopped || atomic.LoadInt32(&n.running) == 0 {
		return true
	}
	n.stopped = true
	n.sy.Stop()
	select {
	case <-n.runDone:
		return true
	case <-time.After(Long):
		return false
	}
}

func splitAddr(s string) (ip []byte, port uint16) {
	h, p, _ := net.SplitHostPort(s)
	i := net.ParseIP(h)
	if v4 := i.To4(); v4 != nil {
		i = v4
	}
	n, _ := strconv.Atoi(p)
	return i, uint16(n)
}

func addrString(a ref.Addr) string { return (&net.TCPAddr{IP: a.IP, Port: int(a.Port)}).String() }
func mkAddr(s string) ref.Addr     { ip, p := splitAddr(s); return ref.Addr{IP: ip, Port: p} }

// peerGoroutines counts goroutines of peers.
func peerGoroutines() (n int) {
	for _, g := range strings.Split(stacks(), "\n\n") {
		if strings.Contains(g, "gringo/p2p.(*Peer)") {
			n++
		}
	}
	return
}

func p2pGoroutines() (n int, dump string) {
	for _, g := range strings.Split(stacks(), "\n\n") {
		if strings.Contains(g, "gringo/p2p.") {
			n++
			dump += g + "\n\n"
		}
	}
	return
}

// src is a stream of bytes; a dribbling one hands them out a few at a time, as a socket may.
type src struct {
	b []byte
	r *rand.Rand
}

func newSrc(b []byte) *src { return &src{b: b} }

func (s *src) dribble(r *rand.Rand, yes bool) {
	if yes {
		s.r = rand.New(rand.NewSource(r.Int63()))
	}
}

func (s *src) Len() int { return len(s.b) }

func (s *src) Read(p []byte) (n int, err error) {
	if len(p) == 0 {
		return 0, nil
	}
	if len(s.b) == 0 {
		return 0, io.EOF
	}
	if s.r != nil {
		if k := 1 + s.r.Intn([]int{1, 4, 16, 700}[s.r.Intn(4)]); k < len(p) {
			p = p[:k]
		}
	}
	n = copy(p, s.b)
	s.b = s.b[n:]
	return n, nil
}
