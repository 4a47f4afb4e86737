package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing/synctest"
	"time"

	"github.com/dblokhin/gringo/consensus"
	"github.com/dblokhin/gringo/p2p"

	"verif/ref"
)

// refusal is what a chain or a transaction pool says no with: any error will do.
func refusal() error {
	l := []error{errors.New("refused by script"), io.EOF, io.ErrUnexpectedEOF, io.ErrClosedPipe, net.ErrClosed, os.ErrNotExist, os.ErrDeadlineExceeded,
		context.Canceled, context.DeadlineExceeded, syscall.ECONNRESET, quietErr{}, fmt.Errorf("orphan block: %w", io.EOF), errors.New("")}
	return l[int(atomic.AddUint32(&refusals, 1))%len(l)]
}

var refusals uint32

// quietErr is temporary and a timeout, and has nothing to say.
type quietErr struct{}

func (quietErr) Error() string   { return "" }
func (quietErr) Timeout() bool   { return true }
func (quietErr) Temporary() bool { return true }

// asksAddrs asks the node for addresses over a connection.
func (sc *sconn) addrs(caps uint32) (set map[string]int, ok bool) {
	var w ref.W
	w.U32(caps)
	if sc.send(ref.TGetPeerAddrs, w.B) != nil {
		return nil, false
	}
	f, ok := sc.recvType(ref.TPeerAddrs, Long)
	if !ok {
		return nil, false
	}
	as, err := ref.DecAddrs(f.body)
	if err != nil {
		return nil, false
	}
	set = map[string]int{}
	for _, a := range as {
		set[addrString(a)]++
	}
	return set, true
}

func poolAddrs(n *node, caps uint32) (set map[string]int, err error) {
	as, err := ref.DecAddrs(n.sy.Pool.Peers(consensus.Capabilities(caps)).Bytes())
	set = map[string]int{}
	for _, a := range as {
		set[addrString(a)]++
	}
	return set, err
}

// parallel runs independent scenarios at the same time, each with a stream of its own.
func parallel(c *Ctx, fs ...func(r *rand.Rand)) {
	var wg sync.WaitGroup
	for _, f := range fs {
		wg.Add(1)
		go func(f func(*rand.Rand), r *rand.Rand) {
			defer wg.Done()
			f(r)
		}(f, subRand(c.R))
	}
	wg.Wait()
}

// ---- P05 ----

// offences: what a peer sends, and whether the scripted chain and pool refuse it. The
// scripts refuse whatever is marked in the bytes.
func scriptVerdicts(n *node) {
	n.ch.onHdrs = func(hs []consensus.BlockHeader) error {
		for _, h := range hs {
			if h.Nonce == 666 {
				return refusal()
			}
		}
		return nil
	}
	n.ch.onBlock = func(b *consensus.Block) error {
		if b.Header.Nonce == 666 {
			return refusal()
		}
		return nil
	}
	n.mp.on = func(t *consensus.Transaction) error {
		if len(t.KernelOffset) > 0 && t.KernelOffset[0] == 66 {
			return refusal()
		}
		return nil
	}
}

// refuseEmpty makes the chain refuse empty header lists as well.
func refuseEmpty(n *node) {
	on := n.ch.onHdrs
	n.ch.onHdrs = func(hs []consensus.BlockHeader) error {
		if len(hs) == 0 {
			return refusal()
		}
		return on(hs)
	}
}

func offence(r *rand.Rand, kind string) []byte {
	bad := nrmHdr(r)
	bad.Nonce = 666
	switch kind {
	case "headers":
		hs := []ref.Hdr{}
		for k := r.Intn(4); k > 0; k-- {
			hs = append(hs, nrmHdr(r))
		}
		hs = append(hs, bad)
		for k := r.Intn(4); k > 0; k-- {
			hs = append(hs, nrmHdr(r))
		}
		return ref.Frame(ref.THeaders, ref.EncHeaders(hs))
	case "headers-empty":
		return ref.Frame(ref.THeaders, ref.EncHeaders(nil))
	case "headers-full":
		hs := make([]ref.Hdr, 512)
		for k := range hs {
			hs[k] = nrmHdr(r)
		}
		hs[r.Intn(512)] = bad
		return ref.Frame(ref.THeaders, ref.EncHeaders(hs))
	case "block-empty":
		return ref.Frame(ref.TBlock, ref.EncBlock(bad, ref.Body{}))
	case "tx-empty":
		off := [32]byte{66}
		return ref.Frame(ref.TTransaction, ref.EncTx(off, ref.Body{}))
	case "block":
		return ref.Frame(ref.TBlock, ref.EncBlock(bad, smallBody(r)))
	case "tx":
		off := rnd32(r)
		off[0] = 66
		return ref.Frame(ref.TTransaction, ref.EncTx(off, smallBody(r)))
	}
	panic(kind)
}

func innocent(r *rand.Rand) []byte {
	typ := msgKinds[r.Intn(len(msgKinds))]
	b := validBytes(r, typ)
	switch typ {
	case ref.TTransaction:
		b[0] = 1
	case ref.THeader, ref.THeaders, ref.TBlock:
		// random headers carry a random nonce, never the marked one by construction
		h := nrmHdr(r)
		if h.Nonce == 666 {
			h.Nonce = 667
		}
		switch typ {
		case ref.THeader:
			b = h.Enc()
		case ref.THeaders:
			b = ref.EncHeaders([]ref.Hdr{h})
		default:
			b = ref.EncBlock(h, smallBody(r))
		}
	}
	return ref.Frame(typ, b)
}

// p05offenders: many connections, some of which offend.
func p05offenders(c *Ctx) {
	for round := 0; c.More(round, 40); round++ {
		n := newNode(c, nil)
		scriptVerdicts(n)
		refuseEmpty(n)
		type one struct {
			st   *stub
			sc   *sconn
			kind string
			raw  []byte
			addr string
		}
		var all []one
		for k := 2 + c.R.Intn(8); k > 0; k-- {
			st := newStub(c, "tcp4", stubOpt{})
			_, sc := n.direct(c, st)
			if sc == nil {
				return
			}
			o := one{st: st, sc: sc, addr: st.addr}
			for m := c.R.Intn(15); m > 0; m-- {
				o.raw = append(o.raw, innocent(c.R)...)
			}
			if c.R.Intn(2) == 0 {
				o.kind = []string{"headers", "block", "tx", "headers", "block", "tx", "headers-empty", "headers-full", "block-empty", "tx-empty"}[c.R.Intn(10)]
				o.raw = append(o.raw, offence(c.R, o.kind)...)
				for m := c.R.Intn(15); m > 0; m-- {
					o.raw = append(o.raw, innocent(c.R)...)
				}
			}
			all = append(all, o)
		}
		for _, o := range all {
			go o.sc.sendRaw(o.raw)
		}
		for _, o := range all {
			c.Case("offence %q", o.kind)
			if o.kind == "" {
				o.sc.send(ref.TPing, ref.EncPing(1, 1))
				// the barrier comes after everything it sent
				var pongs int
				want := 1 + countType(o.raw, ref.TPing)
				for pongs < want {
					if _, ok := o.sc.recvType(ref.TPong, Long); !ok {
						c.Viol("innocent", "a peer whose messages are all accepted is not served on (ended %v, banned %v)", o.sc.isEnded(), n.pool.IsBan(o.addr))
						return
					}
					pongs++
				}
				if n.pool.IsBan(o.addr) {
					c.Viol("innocent", "a peer whose messages are all accepted is banned")
					return
				}
				if n.pool.PeerInfo(o.addr) == nil {
					c.Viol("innocent", "a peer whose messages are all accepted left the address table")
					return
				}
				c.Count("innocent", 1)
			} else {
				if !o.sc.waitEnd(Long) {
					c.Viol("offender:"+o.kind, "a peer that sent refused %s stays connected (banned: %v)", o.kind, n.pool.IsBan(o.addr))
					return
				}
				if !Wait(Long, func() bool { return n.pool.IsBan(o.addr) }) {
					c.Viol("offender:"+o.kind, "a peer that sent refused %s is not banned", o.kind)
					return
				}
				if !p05gone(c, n, o.addr, nil, "offence "+o.kind) {
					return
				}
				c.Count("offender_"+o.kind, 1)
			}
			c.Eval(fmt.Sprintf("%d/%s/%x", round, o.kind, o.raw[:min(len(o.raw), 40)]))
		}
		for _, o := range all {
			o.st.close()
		}
	}
}

func countType(raw []byte, typ uint8) (n int) {
	rd := bytes.NewReader(raw)
	for {
		f, err := readFrame(rd)
		if err != nil {
			return
		}
		if f.typ == typ {
			n++
		}
	}
}

// p05gone: the address is out of the table, cannot come back, and is not listed.
func p05gone(c *Ctx, n *node, addr string, via *sconn, what string) bool {
	for k := 0; k < 2; k++ {
		n.sy.Pool.Add(addr)
		if via != nil {
			a := mkAddr(addr)
			if len(a.IP) > 0 {
				via.send(ref.TPeerAddrs, ref.EncAddrs([]ref.Addr{a}))
			}
			if l, ok := via.addrs(0); !ok {
				c.Viol("reply", "an address request is not answered after %s", what)
				return false
			} else if l[addr] > 0 {
				c.Viol("listed", "a banned address is advertised after %s", what)
				return false
			}
		}
		if !n.pool.IsBan(addr) {
			c.Viol("forgotten", "a banned address is not reported as banned after %s", what)
			return false
		}
		if n.pool.PeerInfo(addr) != nil {
			c.Viol("readmitted", "a banned address is in the address table again after %s", what)
			return false
		}
		l, err := poolAddrs(n, 0)
		if err != nil || l[addr] > 0 {
			c.Viol("listed", "a banned address is advertised after %s (%v)", what, err)
			return false
		}
	}
	return true
}

// alias gives another name of a loopback address, if there is one.
func alias(addr string) string {
	_, p, _ := net.SplitHostPort(addr)
	for _, h := range []string{"localhost", "ip4-localhost"} {
		if a, err := net.ResolveTCPAddr("tcp", h+":"+p); err == nil && a.String() == addr {
			return h + ":" + p
		}
	}
	return ""
}

// p05loop bans peers of a running node.
func p05loop(c *Ctx) {
	scenario := func(how string, aliased bool) func(r *rand.Rand) {
		return func(r *rand.Rand) {
			n := newNode(c, nil)
			scriptVerdicts(n)
			hold := make(chan struct{})
			opt := stubOpt{}
			if how == "dialling" {
				opt.shake = func(ref.Hand) []byte { <-hold; return goodShake(1, 7) }
			}
			opt.named = aliased
			bad := newStub(c, "tcp4", opt)
			good := newStub(c, "tcp4", stubOpt{})
			defer bad.close()
			defer good.close()
			addr := bad.addr
			if aliased {
				if addr = alias(bad.addr); addr == "" {
					return
				}
			}
			what := "ban by " + how
			if aliased {
				what += " under a name"
			}
			c.Case("%s", what)
			if how == "before" { // never connected
				n.add(addr)
				n.sy.Pool.Ban(addr)
			}
			if how == "failed" {
				bad.ln.Close()
			}
			n.add(good.addr)
			n.run()
			gsc := good.wait(c, 1)
			if gsc == nil {
				c.Viol("nodial", "a known address is not dialled")
				return
			}
			n.add(addr)
			var bsc *sconn
			switch how {
			case "before":
			case "dialling":
				if !Wait(Long, func() bool { return atomic.LoadInt32(&bad.dials) > 0 }) {
					c.Viol("nodial", "a known address is not dialled")
					return
				}
				n.sy.Pool.Ban(addr)
				close(hold)
				bsc = bad.wait(c, 1)
			case "failed":
				time.Sleep(3 * time.Second)
				n.sy.Pool.Ban(addr)
			default:
				if bsc = bad.wait(c, 1); bsc == nil {
					c.Viol("nodial", "a known address is not dialled")
					return
				}
				if _, ok := bsc.drain(c, 1, 1); !ok {
					c.Viol("innocent", "a peer is not served before its ban")
					return
				}
			}
			switch how {
			case "call":
				n.sy.Pool.Ban(addr)
			case "twice":
				n.sy.Pool.Ban(addr)
				n.sy.Pool.Ban(addr)
				n.sy.Pool.Ban("10.1.2.3:3414") // unknown
			case "calls":
				var wg sync.WaitGroup
				for k := 0; k < 6; k++ {
					wg.Add(1)
					go func() { defer wg.Done(); n.sy.Pool.Ban(addr) }()
				}
				if ok, _ := Guard(Long, wg.Wait); !ok {
					c.Viol("stuck", "concurrent bans do not return")
					return
				}
			case "headers", "block", "tx":
				bsc.sendRaw(offence(r, how))
			}
			if bsc != nil && !bsc.waitEnd(Long) {
				c.Viol("open:"+how, "%s: the connection stays open", what)
				return
			}
			if !Wait(Long, func() bool { return n.pool.IsBan(addr) }) {
				c.Viol("notbanned:"+how, "%s: the address is not reported as banned; bans: %v", what, n.pool.banned())
				return
			}
			was := atomic.LoadInt32(&bad.dials)
			via := gsc
			if aliased {
				via = nil
			}
			if how == "failed" { // it would be reachable again
				re := newStub(c, "tcp4", stubOpt{addr: bad.addr})
				defer re.close()
				bad, was = re, 0
			}
			if !p05gone(c, n, addr, via, what) {
				return
			}
			// the node goes on dialling others, and not this one
			for k := 0; k < 2; k++ {
				more := newStub(c, "tcp4", stubOpt{})
				defer more.close()
				n.add(addr)
				n.add(more.addr)
				if more.wait(c, 1) == nil {
					c.Viol("nodial", "%s: later addresses are not dialled", what)
					return
				}
			}
			time.Sleep(2500 * time.Millisecond)
			if d := atomic.LoadInt32(&bad.dials); d != was {
				c.Viol("redialled:"+how, "%s: the banned address is dialled again", what)
				return
			}
			if !p05gone(c, n, addr, via, what+", later") {
				return
			}
			if gsc.isEnded() || n.pool.IsBan(good.addr) {
				c.Viol("innocent", "%s: another peer is cut off too", what)
				return
			}
			if !gsc.ping(c, 1, 1) {
				c.Viol("innocent", "%s: another peer is no longer served", what)
				return
			}
			c.Count("ban_"+how, 1)
			c.Eval(what)
			n.stop(c)
		}
	}
	var fs []func(*rand.Rand)
	for _, how := range []string{"call", "twice", "calls", "headers", "block", "tx", "before", "dialling", "failed"} {
		fs = append(fs, scenario(how, false))
		if how != "failed" && how != "before" {
			fs = append(fs, scenario(how, true))
		}
	}
	reps := 1
	if c.Thorough {
		reps = 10
	}
	for ; reps > 0; reps-- {
		parallel(c, fs...)
	}
}

// p05history: random histories of the pool alone, sequential and concurrent.
// p05years looks at bans after long times, on a virtual clock.
func p05years(c *Ctx) {
	st := newStub(c, "tcp4", stubOpt{})
	var l []clocked
	for round := 0; round < c.N(3); round++ {
		running := round%3 == 2
		l = append(l, clocked{time.Now().Add(time.Hour), func() {
			n := newNode(c, nil)
			var names []string
			banned := map[string]time.Time{}
			for k := 0; k < 12; k++ {
				names = append(names, fmt.Sprintf("10.0.%d.%d:%d", round, k, 1+c.R.Intn(65000)))
			}
			names = append(names, "127.0.0.1:3414", "[fd00::1]:3414")
			if running {
				names = []string{st.addr}
			}
			for _, a := range names {
				n.add(a)
			}
			if running {
				n.sy.Pool.Ban(st.addr)
				banned[st.addr] = time.Now()
				n.run()
			}
			ages := []time.Duration{0, time.Second, 20 * time.Second, time.Minute, 10 * time.Minute, time.Hour, 12 * time.Hour, 24 * time.Hour}
			if !running {
				ages = append(ages, 3*24*time.Hour, 30*24*time.Hour, 400*24*time.Hour, 3000*24*time.Hour, 30000*24*time.Hour)
			}
			for step, d := range ages {
				time.Sleep(d)
				synctest.Wait()
				if !running && step < len(ages)-1 {
					a := names[step]
					n.sy.Pool.Ban(a)
					banned[a] = time.Now()
				}
				list, err := poolAddrs(n, 0)
				if err != nil {
					c.Viol("reply", "%v", err)
					return
				}
				for _, x := range names {
					at, bad := banned[x]
					if !bad {
						if n.pool.IsBan(x) {
							c.Viol("years:innocent", "%s was never banned but is reported so", x)
						}
						continue
					}
					age := time.Since(at)
					n.sy.Pool.Add(x)
					if !n.pool.IsBan(x) {
						c.Viol("years:ban", "%v after its ban %s is not reported as banned", age, x)
					}
					if n.pool.PeerInfo(x) != nil {
						c.Viol("years:table", "%v after its ban %s is in the table", age, x)
					}
					if list[x] > 0 {
						c.Viol("years:listed", "%v after its ban %s is listed", age, x)
					}
					c.Eval(fmt.Sprint(round, x, step))
					c.Max("max_ban_age_hours", int64(age/time.Hour))
				}
			}
			if running {
				time.Sleep(5 * time.Second)
				if k := len(st.connList()); k > 0 {
					c.Viol("years:dialled", "the banned %s is dialled", st.addr)
				}
				n.sy.Stop()
				<-n.runDone
			}
		}})
	}
	clockLimit(c)
	// dialling a banned address would halt the virtual clock: its connection is real
	go func() {
		for len(st.connList()) == 0 {
			time.Sleep(100 * time.Millisecond)
		}
		c.Viol("years:dialled", "the banned %s is dialled", st.addr)
		c.flush(true)
		os.Exit(0)
	}()
	runClocked(c, l)
}

// clockLimit gives up a job whose virtual clock has stopped: some goroutine waits for the real world.
func clockLimit(c *Ctx) {
	go func() {
		time.Sleep(6 * time.Minute)
		c.Count("virtual_clock_unusable", 1)
		c.flush(true)
		os.Exit(0)
	}()
}

func p05history(c *Ctx) {
	for round := 0; c.More(round, 150); round++ {
		n := newNode(c, nil)
		var names []string
		for k := 0; k < 12; k++ {
			names = append(names, fmt.Sprintf("10.0.%d.%d:%d", c.R.Intn(256), c.R.Intn(256), 1+c.R.Intn(65000)))
		}
		names = append(names, "localhost:3414", "[fd00::1]:3414")
		known, banned, murky := map[string]bool{}, map[string]bool{}, map[string]bool{}
		var hist []string
		for op := 0; op < 80; op++ {
			a := names[c.R.Intn(len(names))]
			switch c.R.Intn(5) {
			case 0, 1:
				n.sy.Pool.Add(a)
				hist = append(hist, "add "+a)
				if !banned[a] && !murky[a] {
					known[a] = true
				}
			case 2:
				n.sy.Pool.Ban(a)
				hist = append(hist, "ban "+a)
				if known[a] {
					banned[a] = true
					delete(known, a)
				} else if !banned[a] {
					murky[a] = true // whether the ban of an unknown address lasts is open
				}
			}
			l, err := poolAddrs(n, 0)
			if err != nil {
				c.Viol("reply", "%v", err)
				return
			}
			for _, x := range names {
				if murky[x] {
					continue
				}
				if n.pool.IsBan(x) != banned[x] {
					c.Viol("history:ban", "after %v: IsBan(%s) is %v", hist, x, !banned[x])
					return
				}
				if banned[x] && n.pool.PeerInfo(x) != nil {
					c.Viol("history:table", "after %v: the banned %s is in the table", hist, x)
					return
				}
				if known[x] && n.pool.PeerInfo(x) == nil {
					c.Viol("history:lost", "after %v: %s left the table", hist, x)
					return
				}
				if banned[x] && l[x] > 0 {
					c.Viol("history:listed", "after %v: the banned %s is listed", hist, x)
					return
				}
			}
		}
		c.Eval(strings.Join(hist, ","))
	}
	// many bans: none is forgotten
	for _, k := range []int{300, 3000, 9000} {
		n := newNode(c, nil)
		var names []string
		for i := 0; i < k; i++ {
			names = append(names, fmt.Sprintf("10.%d.%d.%d:%d", 2+i>>16, i>>8&255, i&255, 1+c.R.Intn(65000)))
			n.add(names[i])
		}
		for at, i := range c.R.Perm(k)[:k-20] {
			n.sy.Pool.Ban(names[i])
			names[i] = "!" + names[i]
			if at%(k/5) == 0 || at == k-21 {
				for _, x := range names {
					b := strings.HasPrefix(x, "!")
					x = strings.TrimPrefix(x, "!")
					if b {
						n.sy.Pool.Add(x)
					}
					if n.pool.IsBan(x) != b || (n.pool.PeerInfo(x) != nil) == b {
						c.Viol("many:ban", "after %d bans: %s, banned %v, is reported as banned %v and is in the table: %v", at+1, x, b, n.pool.IsBan(x), n.pool.PeerInfo(x) != nil)
						return
					}
				}
				c.Eval(fmt.Sprintf("%d bans of %d", at+1, k))
			}
		}
		c.Count("bans_kept", k-20)
	}
	// concurrently: once a ban has returned it holds
	for round := 0; c.More(round, 40); round++ {
		n := newNode(c, nil)
		var names []string
		for k := 0; k < 30; k++ {
			a := fmt.Sprintf("10.1.%d.%d:%d", round%256, k, 1+c.R.Intn(65000))
			names = append(names, a)
			n.add(a)
		}
		bad := make([]int32, len(names))
		stop := make(chan struct{})
		var wg sync.WaitGroup
		for g := 0; g < 6; g++ {
			r := subRand(c.R)
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					select {
					case <-stop:
						return
					default:
					}
					i := r.Intn(len(names))
					switch r.Intn(3) {
					case 0:
						n.sy.Pool.Add(names[i])
					case 1:
						was := atomic.LoadInt32(&bad[i]) == 1
						if was && !n.pool.IsBan(names[i]) {
							c.Viol("concurrent:ban", "a ban that returned is not reported")
							return
						}
						if was && n.pool.PeerInfo(names[i]) != nil {
							c.Viol("concurrent:table", "a banned address is in the table")
							return
						}
					case 2:
						was := make([]bool, len(names))
						for k := range names {
							was[k] = atomic.LoadInt32(&bad[k]) == 1
						}
						l, _ := poolAddrs(n, 0)
						for k := range names {
							if was[k] && l[names[k]] > 0 {
								c.Viol("concurrent:listed", "a banned address is listed")
								return
							}
						}
					}
				}
			}()
		}
		for _, i := range c.R.Perm(len(names))[:20] {
			n.sy.Pool.Ban(names[i])
			atomic.StoreInt32(&bad[i], 1)
			time.Sleep(time.Duration(c.R.Intn(300)) * time.Microsecond)
		}
		close(stop)
		wg.Wait()
		c.Eval(fmt.Sprintf("concurrent %d", round))
		c.Count("concurrent_bans", 20)
		if c.Violated() {
			return
		}
	}
}

// ---- P06 ----

type p06rec struct{ h, td uint64 }

type p06blk struct {
	raw    []byte
	h, td  uint64
	from   int
	must   []int // peers that must get it
	mayNot []int // peers that must not
	key    string
}

func p06job(c *Ctx) {
	reps := 1
	if c.Thorough {
		reps = 8
	}
	bigs := bigBodies(c.R, [3]int{4300, 30, 20}, [3]int{3, 800, 3}, [3]int{10, 2, 4500}, [3]int{40000, 0, 1})
	for ; reps > 0; reps-- {
		var fs []func(*rand.Rand)
		for k := 0; k < 24; k++ {
			k := k
			fs = append(fs, func(r *rand.Rand) { p06node(c, r, k, bigs) })
		}
		parallel(c, fs...)
	}
}

// p06leavers: blocks relayed while peers are on their way out - closed or banned, their
// requests still being worked on - reach everyone else.
func p06leavers(c *Ctx) {
	var fs []func(*rand.Rand)
	for round := 0; round < c.N(8); round++ {
		round := round
		fs = append(fs, func(r *rand.Rand) {
			n := newNode(c, nil)
			hold := make(chan struct{})
			var held int32
			n.ch.headers = func(l consensus.Locator) []consensus.BlockHeader {
				if len(l.Hashes) == 3 {
					atomic.AddInt32(&held, 1)
					<-hold
				}
				return nil
			}
			n.ch.set(1, 0)
			n.ch.onBlock = func(b *consensus.Block) error {
				n.ch.set(1, b.Header.Height)
				return nil
			}
			peers := 5 + r.Intn(5)
			leave := 1 + r.Intn(peers-2)
			var stubs []*stub
			var conns []*sconn
			for k := 0; k < peers; k++ {
				st := newStub(c, "tcp4", stubOpt{td: 1})
				stubs = append(stubs, st)
				n.add(st.addr)
			}
			n.run()
			for _, st := range stubs {
				sc := st.wait(c, 1)
				if sc == nil {
					c.Viol("nodial", "a known address is not dialled")
					return
				}
				if _, ok := sc.addrs(0); !ok {
					c.Viol("nodial", "a peer is not served")
					return
				}
				conns = append(conns, sc)
			}
			stay := conns[leave:]
			for _, sc := range conns[:leave] {
				sc.send(ref.TGetHeaders, ref.EncLocator([][32]byte{rnd32(r), rnd32(r), rnd32(r)}))
			}
			if !Wait(Long, func() bool { return atomic.LoadInt32(&held) == int32(leave) }) {
				c.Viol("leavers", "header requests of %d peers are not passed to the chain", leave)
				return
			}
			for k, sc := range conns[:leave] {
				if how := r.Intn(3); how == 0 {
					sc.Close()
				} else if pi := n.sy.Pool.PeerInfo(stubs[k].addr); how == 1 || pi == nil {
					n.sy.Pool.Ban(stubs[k].addr)
				} else {
					pi.Lock()
					p := pi.Peer
					pi.Unlock()
					p.Close()
				}
			}
			for i := 0; i < 12; i++ {
				x := nrmHdr(r)
				x.Height, x.TD = uint64(100+i), uint64(1000+i)
				raw := ref.Frame(ref.TBlock, ref.EncBlock(x, smallBody(r)))
				from := r.Intn(len(stay))
				c.Case("block %d from peer %d of %d while %d leave", i, from, len(stay), leave)
				stay[from].sendRaw(raw)
				for k, sc := range stay {
					if k != from && !Wait(Long, func() bool { return countRaw(sc, raw) > 0 }) {
						c.Viol("leavers:missed", "a tip block does not reach a peer that lacks it while %d of %d other peers are disconnecting", leave, peers)
						close(hold)
						return
					}
				}
				c.Eval(fmt.Sprintf("leavers %d/%d/%d", round, i, leave))
			}
			c.Count("leavers", leave)
			close(hold)
			n.stop(c)
			for _, st := range stubs {
				st.close()
			}
		})
	}
	parallel(c, fs...)
}

// p06again: peers that come back soon after a disconnect get the blocks as before.
func p06again(c *Ctx) {
	var fs []func(*rand.Rand)
	for k := 0; k < c.N(8); k++ {
		k := k
		fs = append(fs, func(r *rand.Rand) {
			n := newNode(c, nil)
			defer n.stop(c)
			n.ch.onBlock = func(b *consensus.Block) error {
				n.ch.set(1, b.Header.Height)
				return nil
			}
			a, b := newStub(c, "tcp4", stubOpt{td: 1}), newStub(c, "tcp4", stubOpt{td: 1})
			defer a.close()
			defer b.close()
			n.add(a.addr)
			n.add(b.addr)
			n.run()
			from := b.wait(c, 1)
			for i := 1; i <= 3; i++ {
				sc := a.wait(c, i)
				if sc == nil || from == nil {
					c.Viol("again", "a known address is not dialled")
					return
				}
				if _, ok := sc.addrs(0); !ok {
					c.Viol("again", "a peer is not served after connection %d", i)
					return
				}
				for j := 0; j < 5; j++ {
					x := nrmHdr(r)
					x.Height, x.TD = uint64(1000*i+j), uint64(100000*i+j)
					raw := ref.Frame(ref.TBlock, ref.EncBlock(x, smallBody(r)))
					from.sendRaw(raw)
					if !Wait(Long, func() bool { return countRaw(sc, raw) > 0 }) {
						c.Viol("again:missed", "tip block %d does not reach a peer on its connection number %d", j, i)
						return
					}
					c.Eval(fmt.Sprintf("again %d/%d/%d", k, i, j))
					time.Sleep(time.Duration(200+r.Intn(1800)) * time.Millisecond)
				}
				sc.Close()
			}
			c.Count("reconnected", 2)
		})
	}
	parallel(c, fs...)
}

// relayQuiet tells that nothing of the node seems to be relaying.
func relayQuiet() bool {
	for _, l := range strings.Split(strings.ToLower(stacks()), "\n") {
		if i := strings.Index(l, "gringo/p2p."); i >= 0 {
			for _, w := range []string{"propagat", "relay", "broadcast", "sendblock"} {
				if strings.Contains(l[i:], w) {
					return false
				}
			}
		}
	}
	return true
}

func p06node(c *Ctx, r *rand.Rand, id int, bigs []bigBody) {
	n := newNode(c, nil)
	defer n.stop(c)
	var vmu sync.Mutex
	refused := map[uint64]bool{}
	moves := map[uint64]uint64{} // nonce -> chain height after the block
	n.ch.onBlock = func(b *consensus.Block) error {
		vmu.Lock()
		no, h := refused[b.Header.Nonce], moves[b.Header.Nonce]
		vmu.Unlock()
		n.ch.set(1, h)
		if no {
			return refusal()
		}
		return nil
	}
	peers := 3 + r.Intn(5)
	if id%6 == 5 {
		peers = 12 + r.Intn(4)
	}
	// the values everything is around
	hbs := []uint64{0, 0, 1<<31 - 20, 1<<32 - 20, 1<<63 - 20, 1<<64 - 1000}
	tbs := []uint64{0, 0, 1<<31 - 1000, 1<<32 - 1000, 1<<63 - 1000, 1<<64 - 100000}
	hb, tb := hbs[r.Intn(6)], tbs[r.Intn(6)]
	// or, for some nodes, values all over the range at once
	wild := id%3 == 1
	var stubs []*stub
	var conns []*sconn
	rec := make([]p06rec, peers)
	for k := 0; k < peers; k++ {
		rec[k].td = tb + r.Uint64()%2000
		st := newStub(c, "tcp4", stubOpt{td: rec[k].td})
		stubs = append(stubs, st)
		defer st.close()
		n.add(st.addr)
	}
	n.run()
	for _, st := range stubs {
		sc := st.wait(c, 1)
		if sc == nil {
			c.Viol("nodial", "a known address is not dialled")
			return
		}
		if _, ok := sc.addrs(0); !ok {
			c.Viol("nodial", "a peer is not served")
			return
		}
		conns = append(conns, sc)
	}
	alive := make([]bool, peers)
	for k := range alive {
		alive[k] = true
	}
	var blocks []p06blk
	seq := uint64(0)
	mk := func(h, td uint64) (p06blk, uint64) {
		seq++
		x := nrmHdr(r)
		x.Height, x.TD, x.Nonce = h, td, uint64(id)<<32|seq
		if id%6 < 4 && r.Intn(20) == 0 {
			b := bigs[r.Intn(len(bigs))]
			c.Count("blocks "+b.what, 1)
			return p06blk{raw: ref.Frame(ref.TBlock, append(x.Enc(), b.enc...)), h: h, td: td}, x.Nonce
		}
		return p06blk{raw: ref.Frame(ref.TBlock, ref.EncBlock(x, smallBody(r))), h: h, td: td}, x.Nonce
	}
	announce := func(k int, h, td uint64) bool {
		typ := uint8(ref.TPing)
		if r.Intn(2) == 0 {
			typ = ref.TPong
		}
		conns[k].send(typ, ref.EncPing(td, h))
		rec[k] = p06rec{h, td}
		_, ok := conns[k].addrs(0)
		if !ok {
			c.Viol("served", "a peer is not served after its announcement")
		}
		return ok
	}
	for k := range rec {
		if r.Intn(3) > 0 && !announce(k, hb+r.Uint64()%20, tb+r.Uint64()%2000) {
			return
		}
	}
	rounds := 30
	for round := 0; round < rounds; round++ {
		// move some records; downwards only when no relay is under way
		if round%3 == 2 {
			Wait(5*time.Second, relayQuiet)
			time.Sleep(30 * time.Millisecond)
		}
		for k := range rec {
			if !alive[k] || r.Intn(3) > 0 {
				continue
			}
			h, td := rec[k].h+r.Uint64()%3, rec[k].td+r.Uint64()%300
			if round%3 == 2 {
				h, td = hb+r.Uint64()%40, tb+r.Uint64()%4000
				if wild {
					h, td = hbs[r.Intn(6)]+r.Uint64()%40, tbs[r.Intn(6)]+r.Uint64()%4000
				}
			}
			if !announce(k, h, td) {
				return
			}
		}
		// the block: around the records
		var from int
		for from = r.Intn(peers); !alive[from]; from = r.Intn(peers) {
		}
		o := rec[r.Intn(peers)]
		h, td := o.h, o.td
		if wild && r.Intn(2) == 0 {
			td = rec[r.Intn(peers)].td
			c.Count("mixed_blocks", 1)
		}
		switch r.Intn(6) {
		case 0:
			h++
		case 1:
			td++
		case 2:
			h, td = h+1, td+1
		case 3:
			h, td = h+2, td-min(td, 100)
		case 4:
			h, td = h-min(h, 1), td+100
		}
		b, nonce := mk(h, td)
		b.from = from
		verdict := "tip"
		switch r.Intn(6) {
		case 0:
			verdict = "refused"
		case 1:
			verdict = "low"
		case 2:
			verdict = "high"
		}
		alives := 0
		for _, a := range alive {
			if a {
				alives++
			}
		}
		if verdict == "refused" && alives <= 3 {
			verdict = "tip"
		}
		vmu.Lock()
		refused[nonce] = verdict == "refused"
		moves[nonce] = h
		switch verdict {
		case "low":
			moves[nonce] = h + 1
		case "high":
			moves[nonce] = h - 1
		}
		vmu.Unlock()
		c.Case("round %d: %s block of height %d td %d from peer %d, records %v", round, verdict, h, td, from, rec)
		conns[from].sendRaw(b.raw)
		if verdict == "refused" {
			alive[from] = false
			conns[from].waitEnd(Long)
		} else {
			if rec[from].td < td || rec[from].h < h {
				rec[from] = p06rec{h, td}
			}
			if _, ok := conns[from].addrs(0); !ok {
				c.Viol("served", "the sender of an accepted block is not served on")
				return
			}
		}
		b.key = fmt.Sprintf("%s %d/%d from %d, records %v", verdict, h, td, from, rec)
		for k := range rec {
			if !alive[k] {
				continue
			}
			if verdict == "tip" && (rec[k].h < h || rec[k].td < td) {
				b.must = append(b.must, k)
			} else {
				b.mayNot = append(b.mayNot, k)
			}
		}
		for _, k := range b.must {
			if !Wait(Long, func() bool { return countRaw(conns[k], b.raw) > 0 }) {
				c.Viol("missed", "an accepted tip block does not reach peer %d that lacks it: %s", k, b.key)
				return
			}
		}
		c.Count("verdict_"+verdict, 1)
		c.Count("relays", len(b.must))
		c.Eval(fmt.Sprintf("%d/%s", len(b.must), b.key))
		blocks = append(blocks, b)
	}
	// several senders at once, records only rising
	Wait(5*time.Second, relayQuiet)
	time.Sleep(30 * time.Millisecond)
	for k := range rec {
		if wild && alive[k] && !announce(k, hb+r.Uint64()%40, tb+r.Uint64()%4000) {
			return
		}
	}
	top := p06rec{hb + 200, tb + 20000}
	n.ch.set(1, top.h)
	var wg sync.WaitGroup
	lo := append([]p06rec(nil), rec...)
	var conc []p06blk
	for k := range conns {
		if !alive[k] {
			continue
		}
		b, nonce := mk(top.h, top.td+r.Uint64()%50)
		b.from = k
		vmu.Lock()
		moves[nonce] = top.h
		vmu.Unlock()
		conc = append(conc, b)
		wg.Add(1)
		go func(k int) { defer wg.Done(); conns[k].sendRaw(b.raw); conns[k].addrs(0) }(k)
		rec[k] = p06rec{b.h, b.td}
	}
	wg.Wait()
	for i := range conc {
		b := &conc[i]
		b.key = fmt.Sprintf("concurrent %d/%d from %d", b.h, b.td, b.from)
		for k := range conns {
			if !alive[k] || k == b.from {
				continue
			}
			hi := rec[k]
			if hi.h < b.h || hi.td < b.td {
				b.must = append(b.must, k)
			} else if !(lo[k].h < b.h || lo[k].td < b.td) {
				b.mayNot = append(b.mayNot, k)
			}
		}
		b.mayNot = append(b.mayNot, b.from)
		for _, k := range b.must {
			if !Wait(Long, func() bool { return countRaw(conns[k], b.raw) > 0 }) {
				c.Viol("missed", "a concurrent tip block does not reach peer %d: %s", k, b.key)
				return
			}
		}
		c.Eval(b.key)
	}
	blocks = append(blocks, conc...)
	// everything is still; nothing else came
	Wait(5*time.Second, relayQuiet)
	time.Sleep(time.Second)
	for k, sc := range conns {
		known := 0
		var all int
		for _, f := range sc.frames() {
			if f.typ == ref.TBlock {
				all++
			}
		}
		for _, b := range blocks {
			got := countRaw(sc, b.raw)
			known += got
			if got > 1 {
				c.Viol("twice", "peer %d got a block %d times: %s", k, got, b.key)
			}
			for _, x := range b.mayNot {
				if x == k && got > 0 {
					sig := "unneeded"
					if strings.HasPrefix(b.key, "refused") {
						sig = "refused"
					} else if strings.HasPrefix(b.key, "low") || strings.HasPrefix(b.key, "high") {
						sig = "nottip"
					} else if b.from == k {
						sig = "echo"
					}
					c.Viol(sig, "peer %d got a block it should not get: %s", k, b.key)
				}
			}
		}
		if known != all {
			c.Viol("altered", "peer %d got %d blocks, %d of them as they were sent", k, all, known)
		}
		if sc.bad != "" {
			c.Viol("broken", "the stream to peer %d broke: %s", k, sc.bad)
		}
	}
	c.Count("nodes", 1)
	c.Sample(blocks[0].key)
}

func countRaw(sc *sconn, raw []byte) (n int) {
	sc.mu.Lock()
	defer sc.mu.Unlock()
	for _, f := range sc.all {
		if bytes.Equal(f.raw, raw) {
			n++
		}
	}
	return
}

// ---- P07 ----

// openSet watches which connections of a set of stubs are open.
type openConn struct {
	st *stub
	i  int
}

func openNow(stubs []*stub) map[openConn]bool {
	m := map[openConn]bool{}
	for _, st := range stubs {
		st.mu.Lock()
		for i := range st.raw {
			if !st.gone[i] {
				m[openConn{st, i}] = true
			}
		}
		st.mu.Unlock()
	}
	return m
}

// capWatch reports more connections than allowed, or two to one address, that last: a
// stub learns of the end of a connection a little later than the node.
func capWatch(c *Ctx, stubs func() []*stub, stop chan struct{}, done chan struct{}, max int) {
	defer close(done)
	most := 0
	for {
		select {
		case <-stop:
			c.Count("samples", 0)
			return
		case <-time.After(20 * time.Millisecond):
		}
		a := openNow(stubs())
		per := map[*stub]int{}
		twice := false
		for o := range a {
			per[o.st]++
			twice = twice || per[o.st] > 1
		}
		if len(a) > most {
			most = len(a)
			c.Count("most_open", 1)
		}
		c.Count("samples", 1)
		if len(a) <= max && !twice {
			continue
		}
		// still so after a while?
		time.Sleep(2 * time.Second)
		b := openNow(stubs())
		both := 0
		per = map[*stub]int{}
		twice = false
		for o := range a {
			if b[o] {
				both++
				per[o.st]++
				twice = twice || per[o.st] > 1
			}
		}
		if both > max {
			c.Viol("toomany", "%d connections of the node are open at once", both)
			return
		}
		if twice {
			c.Viol("twice", "two connections to the same address are open at once")
			return
		}
	}
}

func p07cap(c *Ctx) {
	scenario := func(total int, flap bool) func(*rand.Rand) {
		return func(r *rand.Rand) {
			n := newNode(c, nil)
			var stubs []*stub
			for k := 0; k < total; k++ {
				st := newStub(c, "tcp4", stubOpt{})
				defer st.close()
				stubs = append(stubs, st)
				n.add(st.addr)
			}
			stop, done := make(chan struct{}), make(chan struct{})
			go capWatch(c, func() []*stub { return stubs }, stop, done, 15)
			defer func() { close(stop); <-done }()
			n.run()
			reach := func(want int, when string) bool {
				if !Wait(90*time.Second, func() bool { return len(openNow(stubs)) >= want || c.Violated() }) {
					c.Viol("lost", "%s: only %d of %d connections come about with %d addresses", when, len(openNow(stubs)), want, total)
					return false
				}
				return !c.Violated()
			}
			want := min(15, total)
			if !reach(want, "at first") {
				return
			}
			time.Sleep(3 * time.Second)
			if flap {
				for k := 0; k < 3; k++ {
					// some connections end, in different ways
					cut := 0
					for o := range openNow(stubs) {
						if cut < 4 {
							cut++
							o.st.mu.Lock()
							cn := o.st.raw[o.i].(*net.TCPConn)
							o.st.mu.Unlock()
							switch r.Intn(3) {
							case 0:
								cn.SetLinger(0)
								cn.Close()
							case 1:
								cn.Close()
							case 2:
								cn.Write([]byte("this is not a message of the network"))
							}
						}
					}
					time.Sleep(300 * time.Millisecond)
					if !reach(want, fmt.Sprintf("after %d cuts", cut*(k+1))) {
						return
					}
					c.Count("cuts", cut)
				}
				time.Sleep(3 * time.Second)
			}
			c.Eval(fmt.Sprintf("%d addresses flap %v", total, flap))
			c.Count("open_in_the_end", len(openNow(stubs)))
			n.stop(c)
		}
	}
	fs := []func(*rand.Rand){scenario(20, false), scenario(18, true), scenario(15, true), scenario(30, true), scenario(16, true), scenario(3, true)}
	parallel(c, fs...)
}

// fullHouse gives the node as many addresses as it has slots, all of them must get one.
func fullHouse(c *Ctx, n *node, have []*stub, sig, when string) bool {
	for len(have) < 15 {
		st := newStub(c, "tcp4", stubOpt{})
		defer st.close()
		have = append(have, st)
		n.add(st.addr)
	}
	if !Wait(120*time.Second, func() bool { return len(openNow(have)) >= 15 }) {
		c.Viol(sig, "%s: afterwards only %d of 15 connections come about", when, len(openNow(have)))
		return false
	}
	c.Count("full_houses", 1)
	return true
}

// p07slots: long histories that must not use slots up.
func p07slots(c *Ctx) {
	events := 18
	if c.Thorough {
		events = 60
	}
	badShake := func(raw []byte) func(ref.Hand) []byte { return func(ref.Hand) []byte { return raw } }
	otherGen := ref.Shake{Version: 1, Caps: 7, TD: 1, UA: "x", Genesis: [32]byte{1}}
	otherVer := ref.Shake{Version: 2, Caps: 7, TD: 1, UA: "x", Genesis: ref.Testnet4Genesis}
	closer := func(sc *sconn) { sc.Conn.Close() }
	cases := []struct {
		name   string
		opts   []stubOpt
		dead   bool // the port is closed
		idle   bool
		events int
	}{
		{name: "idle", idle: true},
		{name: "connected and idle", opts: []stubOpt{{}}, idle: true},
		{name: "refused", opts: []stubOpt{{}}, dead: true},
		{name: "several refused", opts: []stubOpt{{}, {}, {}}, dead: true},
		{name: "other genesis", opts: []stubOpt{{shake: badShake(ref.Frame(ref.TShake, otherGen.Enc()))}}},
		{name: "other version", opts: []stubOpt{{shake: badShake(ref.Frame(ref.TShake, otherVer.Enc()))}}},
		{name: "garbage for a shake", opts: []stubOpt{{shake: badShake([]byte("HTTP/1.1 400 Bad Request\r\n\r\n"))}}},
		{name: "hang up in the handshake", opts: []stubOpt{{shake: func(ref.Hand) []byte { return nil }, onConn: closer}}},
		{name: "hang up after the handshake", opts: []stubOpt{{onConn: closer}}},
		{name: "hang up after a ping", opts: []stubOpt{{onConn: func(sc *sconn) { sc.ping(nil, 1, 1); sc.Conn.Close() }}}},
		{name: "mute", opts: []stubOpt{{mute: true}}, events: 16},
		{name: "half a shake", opts: []stubOpt{{shake: func(ref.Hand) []byte { b := goodShake(1, 7); return b[:len(b)/2] }}}, events: 16},
		{name: "malformed message", opts: []stubOpt{{onConn: func(sc *sconn) { sc.send(99, []byte("x")) }}}},
	}
	var fs []func(*rand.Rand)
	for _, cs := range cases {
		cs := cs
		fs = append(fs, func(r *rand.Rand) {
			n := newNode(c, nil)
			defer n.stop(c)
			var stubs []*stub
			for _, o := range cs.opts {
				st := newStub(c, "tcp4", o)
				defer st.close()
				stubs = append(stubs, st)
				n.add(st.addr)
				if cs.dead {
					st.close()
				}
			}
			n.run()
			if cs.dead || cs.idle {
				time.Sleep(time.Duration(events) * 1050 * time.Millisecond)
			} else {
				var last int32
				for {
					var d int32
					for _, st := range stubs {
						d += atomic.LoadInt32(&st.dials)
					}
					if int(d) >= events || cs.events > 0 && int(d) >= cs.events {
						break
					}
					if !Wait(Long, func() bool {
						var x int32
						for _, st := range stubs {
							x += atomic.LoadInt32(&st.dials)
						}
						return x > d
					}) {
						c.Viol("slots:"+cs.name, "%s: the node stops dialling after %d attempts", cs.name, d)
						return
					}
					last = d
				}
				c.Count("attempts", int(last))
			}
			// what it learns later is dialled, every time
			st := newStub(c, "tcp4", stubOpt{})
			defer st.close()
			n.add(st.addr)
			if !Wait(Long, func() bool { return atomic.LoadInt32(&st.dials) > 0 }) {
				c.Viol("slots:"+cs.name, "%s (%d times): an address learnt later is not dialled within %v", cs.name, events, Long)
				return
			}
			if cs.name == "connected and idle" {
				stubs = append(stubs, st)
			} else {
				// the node may prefer an address that keeps coming back to one
				// that failed once: this one goes
				for _, old := range stubs {
					old.close()
				}
				stubs = []*stub{st}
			}
			if !fullHouse(c, n, stubs, "slots:"+cs.name, fmt.Sprintf("%s (%d times)", cs.name, events)) {
				return
			}
			c.Eval(cs.name)
			c.Count("histories", 1)
			c.Sample(cs.name)
		})
	}
	// bans in the middle of the handshake
	fs = append(fs, func(r *rand.Rand) {
		n := newNode(c, nil)
		defer n.stop(c)
		n.run()
		for k := 0; k < events; k++ {
			var st *stub
			ready := make(chan struct{})
			st = newStub(c, "tcp4", stubOpt{shake: func(ref.Hand) []byte {
				<-ready
				n.sy.Pool.Ban(st.addr)
				if r.Intn(4) == 0 {
					return []byte("no")
				}
				return goodShake(1, 7)
			}})
			close(ready)
			defer st.close()
			n.add(st.addr)
			if !Wait(Long, func() bool { return atomic.LoadInt32(&st.dials) > 0 }) {
				c.Viol("slots:early bans", "after %d bans in the handshake a new address is not dialled within %v", k, Long)
				return
			}
		}
		if !fullHouse(c, n, nil, "slots:early bans", fmt.Sprintf("%d bans in the handshake", events)) {
			return
		}
		c.Eval("early bans")
		c.Count("early_bans", events)
	})
	// bans: each connection is banned, twenty and more
	fs = append(fs, func(r *rand.Rand) {
		n := newNode(c, nil)
		defer n.stop(c)
		scriptVerdicts(n)
		n.run()
		for k := 0; k < events; k++ {
			st := newStub(c, "tcp4", stubOpt{})
			defer st.close()
			n.add(st.addr)
			sc := st.wait(c, 1)
			if sc == nil {
				c.Viol("slots:bans", "after %d bans a new address is not dialled within %v", k, Long)
				return
			}
			if k%2 == 0 {
				sc.sendRaw(offence(r, "block"))
			} else {
				n.sy.Pool.Ban(st.addr)
			}
			if !sc.waitEnd(Long) {
				c.Viol("slots:bans", "a banned connection stays open")
				return
			}
		}
		if !fullHouse(c, n, nil, "slots:bans", fmt.Sprintf("%d bans", events)) {
			return
		}
		c.Eval("bans")
		c.Count("bans", events)
	})
	parallel(c, fs...)
}

// p07cycles: thousands of attempts, on a virtual clock.
func p07cycles(c *Ctx) {
	clockLimit(c)
	raw := func(b []byte) func(ref.Hand) []byte { return func(ref.Hand) []byte { return b } }
	otherGen := ref.Shake{Version: 1, Caps: 7, TD: 1, UA: "x", Genesis: [32]byte{1}}
	otherVer := ref.Shake{Version: 2, Caps: 7, TD: 1, UA: "x", Genesis: ref.Testnet4Genesis}
	closer := func(sc *sconn) { sc.Conn.Close() }
	reset := func(sc *sconn) { sc.Conn.(*net.TCPConn).SetLinger(0); sc.Conn.Close() }
	nothing := func(ref.Hand) []byte { return nil }
	fails := []stubOpt{{shake: raw(ref.Frame(ref.TShake, otherGen.Enc()))}, {shake: raw(ref.Frame(ref.TShake, otherVer.Enc()))},
		{shake: raw([]byte("HTTP/1.1 400 Bad Request\r\n\r\n"))}, {shake: nothing, onConn: closer}, {shake: nothing, onConn: reset},
		{shake: raw(ref.Frame(ref.TPing, ref.EncPing(1, 1)))}}
	drops := []stubOpt{{onConn: closer}, {onConn: reset}, {onConn: func(sc *sconn) { sc.ping(nil, 1, 1); sc.Conn.Close() }},
		{onConn: func(sc *sconn) { sc.send(99, []byte("x")) }}, {onConn: func(sc *sconn) { sc.sendRaw([]byte("not a frame at all")) }},
		{onConn: func(sc *sconn) { sc.send(ref.TPing, []byte{1}); reset(sc) }}}
	var sets [][]stubOpt
	for _, o := range append(append([]stubOpt(nil), fails...), drops...) {
		sets = append(sets, []stubOpt{o})
	}
	sets = append(sets, fails, drops, append(append([]stubOpt(nil), fails...), drops...))
	secs := 2000
	if c.Thorough {
		secs = 30000
	}
	var l []clocked
	for i, set := range sets {
		i := i
		var stubs []*stub
		for _, o := range set {
			stubs = append(stubs, newStub(c, "tcp4", o))
		}
		fresh := newStub(c, "tcp4", stubOpt{onConn: closer})
		dials := func() (k int) {
			for _, st := range stubs {
				k += int(atomic.LoadInt32(&st.dials))
			}
			return
		}
		l = append(l, clocked{time.Now().Add(time.Hour), func() {
			n := newNode(c, nil)
			for _, st := range stubs {
				n.add(st.addr)
			}
			n.run()
			last, at := 0, 0
			for s := 0; s < secs; s++ {
				time.Sleep(time.Second)
				if d := dials(); d > last {
					last, at = d, s
				}
				c.Case("set %d, %d s, %d attempts", i, s, last)
				if s-at > 200 {
					c.Viol(fmt.Sprintf("cycles:stops:%d", i), "after %d attempts to addresses of kind %d nothing is dialled for %d s", last, i, s-at)
					c.flush(true)
					os.Exit(0)
				}
			}
			n.add(fresh.addr)
			for s := 0; s < 2000 && atomic.LoadInt32(&fresh.dials) == 0; s++ {
				time.Sleep(time.Second)
			}
			if atomic.LoadInt32(&fresh.dials) == 0 {
				c.Viol(fmt.Sprintf("cycles:fresh:%d", i), "after %d attempts to addresses of kind %d an address learnt later is not dialled for 2000 s", last, i)
				c.flush(true)
				os.Exit(0)
			}
			c.Count("cycles", last)
			c.Eval(fmt.Sprint("cycles ", i))
			n.sy.Stop()
			<-n.runDone
			for _, st := range append(stubs, fresh) {
				st.close()
			}
		}})
	}
	runClocked(c, l)
}

// ---- P08 ----

type cand struct {
	s  string
	ok bool
}

func p08cand(r *rand.Rand) cand {
	ip4 := func() string { return fmt.Sprintf("%d.%d.%d.%d", 1+r.Intn(223), r.Intn(256), r.Intn(256), r.Intn(256)) }
	ip6 := func() string {
		b := make([]byte, 16)
		r.Read(b)
		b[0] = 0x20 + byte(r.Intn(0x40))
		if r.Intn(2) == 0 {
			copy(b[2:14], make([]byte, 12))
		}
		return net.IP(b).String()
	}
	port := func() string {
		switch r.Intn(4) {
		case 0:
			return "1"
		case 1:
			return "65535"
		}
		return strconv.Itoa(1 + r.Intn(65535))
	}
	switch r.Intn(20) {
	case 0, 1, 2, 3, 4:
		return cand{net.JoinHostPort(ip4(), port()), true}
	case 5, 6, 7:
		return cand{net.JoinHostPort(ip6(), port()), true}
	case 8:
		return cand{net.JoinHostPort(ip4(), "0"), false}
	case 9:
		return cand{net.JoinHostPort(ip6(), "0"), false}
	case 10:
		return cand{fmt.Sprintf("%d.%d.%d.%d:%s", 224+r.Intn(16), r.Intn(256), r.Intn(256), r.Intn(256), port()), false}
	case 11:
		return cand{fmt.Sprintf("[ff%02x::%x]:%s", r.Intn(256), 1+r.Intn(65535), port()), false}
	case 12:
		return cand{ip4(), false}
	case 13:
		return cand{ip4() + ":" + []string{"65536", "99999", "-1", "", "abc123", "0x50", "1e3"}[r.Intn(7)], false}
	case 14:
		return cand{[]string{"", ":", "::", ":::", "[", "]", "[]", "[]:", "a b:80", "1.2.3:4:5", "\x00", "[::1", "::1:80:90", "[::1]80", "[::1]"}[r.Intn(15)], false}
	case 15:
		return cand{":" + port(), false}
	case 16:
		return cand{"localhost:" + port(), alias("127.0.0.1:1") != ""}
	case 17:
		return cand{net.JoinHostPort("255.255.255.255", port()), true}
	case 18:
		return cand{net.JoinHostPort("127.0.0.1", port()), true}
	}
	return cand{net.JoinHostPort(fmt.Sprintf("239.255.%d.%d", r.Intn(256), r.Intn(256)), port()), false}
}

func p08table(c *Ctx) {
	for round := 0; c.More(round, 60); round++ {
		n := newNode(c, nil)
		known := map[string]bool{}
		heights := map[string]uint64{}
		if round%2 == 1 {
			// some are given to the node at its start
			var first []cand
			var l []string
			for k := c.R.Intn(40); k >= 0; k-- {
				x := p08cand(c.R)
				first, l = append(first, x), append(l, x.s)
			}
			c.Case("start with %q", l)
			if p := Try(func() { n.sy = p2p.NewSyncer(l, n.ch, nil) }); p != "" {
				c.Viol("add", "starting with %q: %s", l, p)
				return
			}
			for _, x := range first {
				if pi := n.sy.Pool.PeerInfo(x.s); (pi != nil) != x.ok {
					c.Viol("admission", "starting with %q: %q admitted %v", l, x.s, pi != nil)
				}
				if x.ok {
					known[x.s] = true
				}
				c.Count("initial", 1)
			}
		}
		for op := 0; op < 150; op++ {
			x := p08cand(c.R)
			if c.R.Intn(4) == 0 && len(known) > 0 { // again
				for k := range known {
					x = cand{k, true}
					break
				}
			}
			c.Case("add %q", x.s)
			var before string
			if pi := n.sy.Pool.PeerInfo(x.s); pi != nil {
				pi.Lock()
				if c.R.Intn(2) == 0 {
					pi.Height = 1 + rndU64(c.R)>>1
					pi.TotalDifficulty = consensus.Difficulty(rndU64(c.R))
					pi.Capabilities = consensus.Capabilities(c.R.Uint32())
					pi.LastConn = time.Unix(c.R.Int63n(1<<31), 0)
					heights[x.s] = pi.Height
				}
				before = fmt.Sprintf("%d %d %d %d %d %v", pi.Status, pi.Height, pi.TotalDifficulty, pi.Capabilities, pi.ProtocolVersion, pi.LastConn)
				pi.Unlock()
			}
			if ok, p := Guard(Long, func() { n.sy.Pool.Add(x.s) }); !ok || p != "" {
				c.Viol("add", "Add(%q) blocks or panics: %s", x.s, p)
				return
			}
			pi := n.sy.Pool.PeerInfo(x.s)
			if (pi != nil) != x.ok {
				c.Viol("admission", "Add(%q): admitted %v", x.s, pi != nil)
			}
			if x.ok {
				known[x.s] = true
			}
			if before != "" && pi != nil {
				pi.Lock()
				after := fmt.Sprintf("%d %d %d %d %d %v", pi.Status, pi.Height, pi.TotalDifficulty, pi.Capabilities, pi.ProtocolVersion, pi.LastConn)
				pi.Unlock()
				if after != before {
					c.Viol("readd", "adding %q again changes its record from %s to %s", x.s, before, after)
				}
				c.Count("readds", 1)
			}
			c.Eval(x.s)
			if x.ok {
				c.Count("admitted", 1)
			} else {
				c.Count("refused", 1)
			}
		}
		// everything that was admitted is still there
		for k := range known {
			if n.sy.Pool.PeerInfo(k) == nil {
				c.Viol("lost", "%q left the table", k)
			}
		}
	}
}

func p08full(c *Ctx) {
	reps := 2
	if c.Thorough {
		reps = 10
	}
	for ; reps > 0; reps-- {
		n := newNode(c, nil)
		over := 10050 + c.R.Intn(200)
		conc := reps%2 == 0
		addr := func(i int) string { return fmt.Sprintf("10.%d.%d.%d:%d", 1+i/65536, i/256%256, i%256, 3414+reps) }
		c.Case("%d addresses, concurrently %v", over, conc)
		if conc {
			var wg sync.WaitGroup
			for g := 0; g < 8; g++ {
				wg.Add(1)
				go func(g int) {
					defer wg.Done()
					for i := g; i < over; i += 8 {
						n.sy.Pool.Add(addr(i))
					}
				}(g)
			}
			wg.Wait()
		} else {
			for i := 0; i < over; i++ {
				n.sy.Pool.Add(addr(i))
				if i >= 9990 && i < 10000 && n.sy.Pool.PeerInfo(addr(i)) == nil {
					c.Viol("full", "address %d is not admitted", i+1)
				}
			}
		}
		count := func() (k int) {
			for i := 0; i < over+50; i++ {
				if n.sy.Pool.PeerInfo(addr(i)) != nil {
					k++
				}
			}
			return
		}
		if k := count(); k != 10000 {
			c.Viol("full", "%d of %d addresses are in the table (concurrently %v)", k, over, conc)
			return
		}
		// known ones may be added again, and a free place is used
		var in string
		for i := 0; i < over; i++ {
			if n.sy.Pool.PeerInfo(addr(i)) != nil {
				in = addr(i)
				n.sy.Pool.Add(in)
			}
		}
		if k := count(); k != 10000 {
			c.Viol("full", "%d addresses are in the table after adding them again", k)
		}
		l, err := poolAddrs(n, 0)
		if err != nil || len(l) != 256 {
			c.Viol("reply:size", "a full table is answered with %d addresses (%v)", len(l), err)
		}
		n.sy.Pool.Ban(in)
		for i := over; i < over+50; i++ {
			n.sy.Pool.Add(addr(i))
		}
		if k := count(); k != 10000 {
			c.Viol("full", "%d addresses are in the table after one was banned and 50 more came", k)
		}
		c.Eval(fmt.Sprintf("%d %v", over, conc))
	}
}

// p08scan: tables most of which were found unreachable, on a virtual clock.
func p08scan(c *Ctx) {
	clockLimit(c)
	var l []clocked
	for _, m := range [][2]int{{600, 100}, {300, 255}, {1200, 250}, {700, 1}, {520, 256}} {
		m := m
		l = append(l, clocked{time.Now().Add(time.Hour), func() {
			n := newNode(c, nil)
			bad := map[string]bool{}
			for i := 0; i < m[0]; i++ {
				a := fmt.Sprintf("127.0.%d.%d:1", 1+i/250, 1+i%250) // nothing listens there
				bad[a] = true
				n.add(a)
			}
			n.run()
			time.Sleep(time.Duration(m[0]+m[0]/5+20) * time.Second)
			n.sy.Stop()
			<-n.runDone
			good := map[string]bool{}
			for i := 0; i < m[1]; i++ {
				a := fmt.Sprintf("10.0.%d.%d:3414", i/250, 1+i%250)
				good[a] = true
				n.add(a)
			}
			for q := 0; q < 20; q++ {
				c.Case("%d unreachable, %d others", m[0], m[1])
				set, err := poolAddrs(n, 0)
				if err != nil {
					c.Viol("reply:format", "%v", err)
					return
				}
				for a := range set {
					if bad[a] {
						c.Viol("reply:dead", "%s was found unreachable and is listed", a)
						return
					}
				}
				if len(set) != min(m[1], 256) {
					c.Viol("reply:missing", "%d of %d addresses are listed, next to %d unreachable ones", len(set), m[1], m[0])
					return
				}
				c.Eval(fmt.Sprint(m, q))
			}
			c.Count("found_unreachable", m[0])
		}})
	}
	runClocked(c, l)
}

func p08reply(c *Ctx) {
	for round := 0; c.More(round, 200); round++ {
		n := newNode(c, nil)
		size := c.R.Intn(40)
		switch c.R.Intn(6) {
		case 0:
			size = 250 + c.R.Intn(12)
		case 1:
			size = c.R.Intn(800)
		case 2:
			size = 254 + c.R.Intn(3)
		}
		caps := map[string]uint32{}
		has := map[string]bool{}
		named := map[string]string{} // what an address was added as
		for len(has) < size {
			x := p08cand(c.R)
			if !x.ok || has[x.s] || strings.HasPrefix(x.s, "localhost") {
				continue
			}
			a, err := net.ResolveTCPAddr("tcp", x.s)
			if err != nil {
				c.Fail("candidate %q: %v", x.s, err)
				return
			}
			if has[a.String()] {
				continue
			}
			n.add(x.s)
			has[a.String()], named[a.String()] = true, x.s
			pi := n.sy.Pool.PeerInfo(x.s)
			if pi == nil {
				c.Viol("admission", "Add(%q): not admitted", x.s)
				return
			}
			v := []uint32{0, 1, 2, 4, 3, 5, 6, 7, 8, 15, 0xffffffff, c.R.Uint32()}[c.R.Intn(12)]
			pi.Lock()
			pi.Capabilities = consensus.Capabilities(v)
			pi.Unlock()
			caps[a.String()] = v
		}
		// the same place under another name
		if al := alias("127.0.0.1:4444"); al != "" && c.R.Intn(3) == 0 {
			n.add(al)
			n.add("127.0.0.1:4444")
			if !has["127.0.0.1:4444"] {
				has["127.0.0.1:4444"] = true
				caps["127.0.0.1:4444"] = 0
			}
			delete(named, "127.0.0.1:4444") // it stays under the other name
		}
		var want uint32
		for q := 0; q < 10; q++ {
			if q == 0 || c.R.Intn(2) == 0 {
				want = []uint32{0, 0, 1, 2, 4, 3, 7, 6, 0xffffffff, c.R.Uint32()}[c.R.Intn(10)]
			}
			// the table changes between the requests
			switch c.R.Intn(4) {
			case 0:
				for a, s := range named {
					n.sy.Pool.Ban(s)
					delete(named, a)
					delete(has, a)
					delete(caps, a)
					c.Count("bans_between", 1)
					break
				}
			case 1:
				s := fmt.Sprintf("10.1.%d.%d:%d", c.R.Intn(256), c.R.Intn(256), 1+c.R.Intn(65535))
				if n.add(s); !has[s] {
					has[s], named[s], caps[s] = true, s, 0
				}
			case 2:
				for a, s := range named {
					if pi := n.sy.Pool.PeerInfo(s); pi != nil {
						caps[a] ^= 1 << uint(c.R.Intn(4))
						pi.Lock()
						pi.Capabilities = consensus.Capabilities(caps[a])
						pi.Unlock()
					}
					break
				}
			}
			b := n.sy.Pool.Peers(consensus.Capabilities(want)).Bytes()
			as, err := ref.DecAddrs(b)
			if err != nil {
				c.Viol("reply:format", "a table of %d is answered with no address list (%v): %s", size, err, hx(b))
				return
			}
			seen := map[string]bool{}
			for _, a := range as {
				s := addrString(a)
				if seen[s] {
					c.Viol("reply:repeat", "%s is listed twice", s)
				}
				seen[s] = true
				if !has[s] {
					c.Viol("reply:alien", "%s is listed and not in the table", s)
				}
				if caps[s]&want != want {
					c.Viol("reply:caps", "%s offers %x and is listed for %x", s, caps[s], want)
				}
			}
			if len(as) > 256 {
				c.Viol("reply:size", "%d addresses are listed", len(as))
			}
			if want == 0 && len(has) < 256 && len(seen) != len(has) {
				c.Viol("reply:missing", "%d of %d addresses are listed", len(seen), len(has))
			}
			c.Count("replies", 1)
			c.Count("listed", len(as))
			c.Eval(fmt.Sprintf("%d/%d/%x", round, size, want))
		}
	}
}

// p08live: addresses of a running node, reachable and not.
func p08live(c *Ctx) {
	scenario := func(r *rand.Rand) {
		n := newNode(c, nil)
		defer n.stop(c)
		capsOf := []uint32{7, 1, 2, 4, 3, 0xffffffff}
		var good, dead []*stub
		for k := 0; k < 4; k++ {
			st := newStub(c, "tcp4", stubOpt{caps: capsOf[r.Intn(len(capsOf))]})
			defer st.close()
			good = append(good, st)
			n.add(st.addr)
		}
		for k := 0; k < 3; k++ {
			st := newStub(c, "tcp4", stubOpt{})
			st.close()
			dead = append(dead, st)
			n.add(st.addr)
		}
		n.run()
		for _, st := range good {
			if st.wait(c, 1) == nil {
				c.Viol("nodial", "a known address is not dialled")
				return
			}
		}
		sc := good[0].connList()[0]
		state := func(when string, up, down []*stub) bool {
			for _, want := range []uint32{0, 1, 2, 4, 7, 3, 0x10} {
				l, ok := sc.addrs(want)
				if !ok {
					c.Viol("reply", "%s: an address request is not answered", when)
					return false
				}
				for a, k := range l {
					if k > 1 {
						c.Viol("reply:repeat", "%s: %s is listed twice", when, a)
					}
				}
				for _, st := range down {
					if l[st.addr] > 0 {
						c.Viol("reply:dead", "%s: an address last found unreachable is listed", when)
						return false
					}
				}
				for _, st := range up {
					offers := st.opt.caps
					if offers == 0 {
						offers = 7
					}
					if offers&want != want && l[st.addr] > 0 {
						c.Viol("reply:caps", "%s: a peer offering %x is listed for %x", when, offers, want)
					}
					if want == 0 && l[st.addr] == 0 {
						c.Viol("reply:missing", "%s: a connected peer is not listed", when)
					}
				}
				c.Count("live_replies", 1)
			}
			c.Eval(when)
			return true
		}
		// the dead ones are found out as the loop goes round
		if !Wait(Long, func() bool {
			l, ok := sc.addrs(0)
			return ok && l[dead[0].addr] == 0 && l[dead[1].addr] == 0 && l[dead[2].addr] == 0
		}) {
			c.Viol("reply:dead", "unreachable addresses stay listed")
			return
		}
		for k := 0; k < 20; k++ { // and stay so while they are tried again
			if k%3 == 1 { // others may name them all the time
				for _, st := range dead {
					n.add(st.addr)
				}
			} else if k%3 == 2 {
				var as []ref.Addr
				for _, st := range dead {
					ta, _ := net.ResolveTCPAddr("tcp4", st.addr)
					as = append(as, ref.Addr{IP: ta.IP.To4(), Port: uint16(ta.Port)})
				}
				sc.send(ref.TPeerAddrs, ref.EncAddrs(as))
			}
			if !state("dead from the start", good, dead) {
				return
			}
			time.Sleep(150 * time.Millisecond)
		}
		// one that was up goes away
		good[3].close()
		dead = append(dead, good[3])
		good = good[:3]
		if !Wait(Long, func() bool { l, ok := sc.addrs(0); return ok && l[dead[3].addr] == 0 }) {
			c.Viol("reply:dead", "an address that went away stays listed")
			return
		}
		if !state("gone", good, dead) {
			return
		}
		// one comes back
		re, err := net.Listen("tcp4", dead[0].addr)
		if err == nil {
			re.Close()
			st := newStub(c, "tcp4", stubOpt{addr: dead[0].addr, caps: 3})
			defer st.close()
			if st.wait(c, 1) == nil {
				c.Viol("nodial", "an address that is reachable again is not dialled within %v", Long)
				return
			}
			if !Wait(Long, func() bool { l, ok := sc.addrs(0); return ok && l[st.addr] == 1 }) {
				c.Viol("reply:missing", "an address that is connected again is not listed")
				return
			}
			if !state("back", append(good, st), dead[1:]) {
				return
			}
		}
		c.Count("live_histories", 1)
	}
	reps := 1
	if c.Thorough {
		reps = 6
	}
	for ; reps > 0; reps-- {
		parallel(c, scenario, scenario, scenario, scenario)
	}
}

// p08again: peers that come back offering something else, and fail in between.
func p08again(c *Ctx) {
	var fs []func(*rand.Rand)
	for k := 0; k < 12; k++ {
		fs = append(fs, func(r *rand.Rand) {
			n := newNode(c, nil)
			defer n.stop(c)
			type visit struct {
				caps uint32
				bad  bool
			}
			var vs []visit
			for i := 0; i < 5; i++ {
				v := visit{caps: []uint32{0, 1, 2, 4, 3, 5, 6, 7, 8, 15, 0xffffffff, r.Uint32()}[r.Intn(12)]}
				v.bad = i > 0 && r.Intn(4) == 0
				vs = append(vs, v)
			}
			vs[len(vs)-1].bad = false
			var i, conns int32
			st := newStub(c, "tcp4", stubOpt{shake: func(ref.Hand) []byte {
				v := vs[min(int(atomic.AddInt32(&i, 1)), len(vs))-1]
				sh := ref.Shake{Version: 1, Caps: v.caps, TD: 1, UA: "again", Genesis: ref.Testnet4Genesis}
				if v.bad {
					sh.Version = 2
				}
				return ref.Frame(ref.TShake, sh.Enc())
			}})
			defer st.close()
			n.add(st.addr)
			n.run()
			for m, v := range vs {
				sc := st.wait(c, m+1)
				if sc == nil {
					c.Viol("nodial", "the address is not dialled (again), dial %d", m)
					return
				}
				if v.bad {
					// it becomes unreachable, unless it is dialled again before we look
					for t := time.Now(); time.Since(t) < Long && int(atomic.LoadInt32(&st.dials)) == m+1; time.Sleep(5 * time.Millisecond) {
						if set, err := poolAddrs(n, 0); err == nil && set[st.addr] == 0 {
							c.Count("failed_between", 1)
							break
						}
					}
					continue
				}
				conns++
				for q := 0; q < 6; q++ {
					want := []uint32{0, v.caps, 1, 2, 4, 7, 8, r.Uint32() & r.Uint32() & r.Uint32(), 1 << uint(r.Intn(32))}[r.Intn(9)]
					set, ok := sc.addrs(want)
					if !ok {
						c.Viol("served", "visit %d is not served", m)
						return
					}
					if (set[st.addr] == 1) != (v.caps&want == want) || set[st.addr] > 1 {
						c.Viol("reply:again", "a peer that offers %x now (visits %+v, number %d) is listed %d times for %x", v.caps, vs, m, set[st.addr], want)
						return
					}
					c.Eval(fmt.Sprintf("again %d %x %x", m, v.caps, want))
				}
				sc.Conn.Close()
			}
			c.Count("visits", int(conns))
			// disconnected isn't unreachable: it stays listed
			n.stop(c)
			last := vs[len(vs)-1].caps
			for q := 0; q < 5; q++ {
				time.Sleep(100 * time.Millisecond)
				for _, want := range []uint32{0, last} {
					if set, err := poolAddrs(n, want); err != nil || set[st.addr] != 1 {
						c.Viol("reply:disconnected", "a peer that offered %x and has disconnected is listed %d times for %x", last, set[st.addr], want)
						return
					}
				}
			}
			c.Count("disconnected_listed", 1)
		})
	}
	parallel(c, fs...)
}

// p08remote: addresses learnt from peers.
func p08remote(c *Ctx) {
	for round := 0; c.More(round, 80); round++ {
		n := newNode(c, nil)
		st := newStub(c, "tcp4", stubOpt{})
		_, sc := n.direct(c, st)
		if sc == nil {
			return
		}
		want := map[string]bool{st.addr: true}
		for k := 1 + c.R.Intn(4); k > 0; k-- {
			var as []ref.Addr
			for m := c.R.Intn(60); m > 0; m-- {
				a := rndAddr(c.R)
				switch c.R.Intn(5) {
				case 0:
					a.Port = 0
				case 1:
					if len(a.IP) == 4 {
						a.IP[0] = 224 + byte(c.R.Intn(16))
					} else {
						a.IP[0] = 0xff
					}
				}
				as = append(as, a)
				ip := net.IP(a.IP)
				if a.Port != 0 && !ip.IsMulticast() {
					want[addrString(a)] = true
				}
			}
			sc.send(ref.TPeerAddrs, ref.EncAddrs(as))
		}
		got, ok := sc.addrs(0)
		if !ok {
			c.Viol("reply", "an address request is not answered")
			return
		}
		var miss, extra []string
		for a := range want {
			if got[a] == 0 {
				miss = append(miss, a)
			}
		}
		for a, k := range got {
			if !want[a] {
				extra = append(extra, a)
			}
			if k > 1 {
				c.Viol("reply:repeat", "%s is listed twice", a)
			}
		}
		sort.Strings(miss)
		if len(miss) > 0 && len(want) < 256 {
			c.Viol("remote:missing", "addresses learnt from a peer are missing: %v", clip(fmt.Sprint(miss), 300))
		}
		if len(extra) > 0 {
			c.Viol("remote:extra", "addresses are listed that none should admit: %v", clip(fmt.Sprint(extra), 300))
		}
		c.Eval(fmt.Sprintf("remote %d %v", round, len(want)))
		st.close()
	}
}

func init() {
	register(&Prop{ID: "P05", Min: 300,
		Rule:   "one evaluation is one peer's or address's history judged to its end (banned or not, connection, table, replies, dials); distinct by history",
		Assume: []string{"an address is known by the name it was added under", fmt.Sprintf("a dial that has not come within %v never comes", Long)},
		Jobs:   []Job{{Name: "offenders", Fn: p05offenders}, {Name: "loop", Fn: p05loop}, {Name: "history", Fn: p05history}, {Name: "years", Fn: p05years}}})
	register(&Prop{ID: "P06", Min: 250,
		Rule:   "one evaluation is one block received from a peer with its copies at all peers counted; distinct by verdict, block and records",
		Assume: []string{"no block is received twice"},
		Jobs:   []Job{{Name: "relay", Fn: p06job}, {Name: "leavers", Fn: p06leavers}, {Name: "again", Fn: p06again}}})
	register(&Prop{ID: "P07", Min: 10,
		Rule:   "one evaluation is one history of a running node (many dials, failures, cuts or idle seconds) followed by new addresses; distinct by kind of history",
		Assume: []string{fmt.Sprintf("a dial that has not come within %v never comes", Long), "addresses differ when their names differ"},
		Jobs:   []Job{{Name: "cap", Fn: p07cap}, {Name: "slots", Fn: p07slots}, {Name: "cycles", Fn: p07cycles}}})
	register(&Prop{ID: "P08", Min: 5000,
		Rule:   "one evaluation is one addition judged or one reply checked against the table; distinct by address or by table and filter",
		Assume: []string{"localhost resolves to a loopback address where it resolves"},
		Jobs:   []Job{{Name: "table", Fn: p08table}, {Name: "full", Fn: p08full}, {Name: "scan", Fn: p08scan}, {Name: "reply", Fn: p08reply}, {Name: "live", Fn: p08live}, {Name: "remote", Fn: p08remote}, {Name: "again", Fn: p08again}}})
}
