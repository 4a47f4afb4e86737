package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/dblokhin/gringo/chain"
	"verif/ref"
)

// seedAddr is the address the shipped program is built to dial.
const seedAddr = "127.0.0.1:13414"

// programJob builds the shipped program as a user does, without any hook, and runs it as a
// process of its own among hostile peers.
func programJob(prop string, race bool) func(*Ctx) {
	return func(c *Ctx) {
		dir := filepath.Join(verifDir(), "work", prop, "program")
		os.MkdirAll(dir, 0o755)
		bin, logf := filepath.Join(dir, "node"), filepath.Join(dir, "log")
		args := []string{"build", "-o", bin}
		if race {
			args = append(args, "-race")
		}
		b := exec.Command("go", append(args, "./cmd/node")...)
		repo, err := exec.Command("go", "list", "-C", filepath.Join(verifDir(), "harness"), "-m", "-f", "{{.Dir}}", "github.com/dblokhin/gringo").Output()
		if err != nil {
			c.Fail("where is the repository: %v", err)
			return
		}
		b.Dir = strings.TrimSpace(string(repo))
		if out, err := b.CombinedOutput(); err != nil {
			c.Fail("the program does not build: %v %s", err, clip(string(out), 1000))
			return
		}
		defer os.RemoveAll(dir)

		shake := func(h ref.Hand) []byte {
			sh := ref.Shake{Version: 1, Caps: 7, TD: uint64(len(h.UA)), UA: "stub", Genesis: h.Genesis}
			return ref.Frame(ref.TShake, sh.Enc())
		}
		// another run of this job may hold the address for a while
		var ln net.Listener
		for t := time.Now(); time.Since(t) < 5*time.Minute; time.Sleep(time.Second) {
			if ln, err = net.Listen("tcp4", seedAddr); err == nil {
				ln.Close()
				break
			}
		}
		if err != nil {
			c.Fail("listen on %s: %v", seedAddr, err)
			return
		}
		by := newStub(c, "tcp4", stubOpt{addr: seedAddr, shake: shake})
		defer by.close()

		lf, err := os.Create(logf)
		if err != nil {
			c.Fail("log: %v", err)
			return
		}
		defer lf.Close()
		cmd := exec.Command(bin)
		cmd.Stdout, cmd.Stderr, cmd.Dir = lf, lf, dir
		cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66")
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		if err := cmd.Start(); err != nil {
			c.Fail("start: %v", err)
			return
		}
		gone := make(chan error, 1)
		go func() { gone <- cmd.Wait() }()
		defer cmd.Process.Kill()
		alive := func(when string) bool {
			select {
			case err := <-gone:
				gone <- err
				log, _ := os.ReadFile(logf)
				s := string(log)
				kind := "died"
				if i := strings.Index(s, "WARNING: DATA RACE"); i >= 0 {
					kind, s = "race", s[i:]
				} else if i := strings.Index(s, "panic:"); i >= 0 {
					s = s[i:]
				} else if i := strings.Index(s, "fatal error:"); i >= 0 {
					s = s[i:]
				} else if len(s) > 2000 {
					s = s[len(s)-2000:]
				}
				c.Viol("program:"+kind, "the program ended (%v) %s: %s", err, when, clip(s, 3000))
				return false
			default:
				return true
			}
		}
		bsc := by.wait(c, 1)
		if bsc == nil {
			if alive("before it dialled its seed") {
				c.Viol("program:nodial", "the program does not dial its seed %s", seedAddr)
			}
			return
		}
		gen := chain.Testnet1
		if id := gen.Hash(); !bytes.Equal(bsc.hand.Genesis[:], id) {
			c.Viol("program:network", "the program, on Testnet1, says its genesis block is %x", bsc.hand.Genesis)
		}
		serve := func(when string) bool {
			if !alive(when) {
				return false
			}
			ok := true
			bsc.send(ref.TPing, ref.EncPing(1, 2))
			if f, served := bsc.recvType(ref.TPong, Long); !served {
				ok = false
			} else if !bytes.Equal(f.body, ref.EncPing(uint64(gen.Header.TotalDifficulty), gen.Header.Height)) {
				c.Viol("program:pong", "the program's pong is %x", f.body)
			}
			if ok {
				_, ok = bsc.addrs(0)
			}
			if ok {
				bsc.send(ref.TGetHeaders, ref.EncLocator([][32]byte{rnd32(c.R)}))
				_, ok = bsc.recvType(ref.THeaders, Long)
			}
			c.Count("rounds_served", 1)
			time.Sleep(20 * time.Millisecond)
			if !alive(when) {
				return false
			}
			if !ok {
				c.Viol("program:wedged", "the program does not serve the peer it dialled first %s", when)
			}
			return ok
		}
		if !serve("at the start") {
			return
		}

		// hostile peers, whose addresses the first one gives away
		var mu sync.Mutex
		n := 0
		var last []string
		var stubs []*stub
		attack := func(r *rand.Rand) func(sc *sconn) {
			return func(sc *sconn) {
				var raw []byte
				var names []string
				for k := r.Intn(40); k > 0; k-- {
					typ := msgKinds[r.Intn(len(msgKinds))]
					raw = append(raw, ref.Frame(typ, validBytes(r, typ))...)
				}
				aligned := true
				for k := r.Intn(12); k > 0 && aligned; k-- {
					var w string
					var x []byte
					w, x, aligned = hostile(r)
					names = append(names, w)
					raw = append(raw, x...)
				}
				mu.Lock()
				n++
				last = append(last, fmt.Sprint(names))
				if len(last) > 6 {
					last = last[1:]
				}
				mu.Unlock()
				c.Eval(string(raw))
				c.Count("hostile_connections", 1)
				sc.sendRaw(raw)
				switch r.Intn(4) {
				case 0:
					sc.Conn.(*net.TCPConn).SetLinger(0)
					sc.Conn.Close()
				case 1:
					sc.Conn.Close()
				case 2:
					time.Sleep(time.Duration(r.Intn(3000)) * time.Millisecond)
					sc.Conn.Close()
				}
			}
		}
		secs := 22
		if race { // slower
			secs = 45
		}
		until := time.Now().Add(time.Duration(c.N(secs)) * time.Second)
		for time.Now().Before(until) {
			var as []ref.Addr
			for k := 0; k < 6; k++ {
				r := subRand(c.R)
				opt := stubOpt{shake: shake, onConn: attack(r)}
				switch r.Intn(8) {
				case 0:
					opt.shake = func(ref.Hand) []byte { _, b, _ := hostile(r); return b }
				case 1:
					opt.mute = true
				case 2:
					opt.noRead = true
				}
				st := newStub(c, "tcp4", opt)
				defer st.close()
				stubs = append(stubs, st)
				ta, _ := net.ResolveTCPAddr("tcp4", st.addr)
				as = append(as, ref.Addr{IP: ta.IP.To4(), Port: uint16(ta.Port)})
			}
			as = append(as, ref.Addr{IP: []byte{127, 0, 0, 1}, Port: uint16(1 + c.R.Intn(1000))}) // nobody there
			bsc.send(ref.TPeerAddrs, ref.EncAddrs(as))
			c.Case("the program among hostile peers, the latest %v", last)
			for k := 0; k < 3; k++ {
				time.Sleep(time.Second)
				mu.Lock()
				when := fmt.Sprintf("after %d hostile connections, the latest %v", n, last)
				mu.Unlock()
				if !serve(when) {
					return
				}
			}
		}
		if n == 0 {
			c.Viol("program:stuck", "the program dials none of %d addresses it was told of", len(stubs))
		}
	}
}
