package main

import (
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"sync"
	"syscall"
	"time"

	"github.com/dblokhin/gringo/consensus"

	"verif/ref"
)

// faultConn is a connection whose writes or reads fail at a set place of the stream.
type faultConn struct {
	mu       sync.Mutex
	in       []byte
	out      int // bytes written
	writeAt  int // writing past this many bytes fails
	writeErr error
	short    bool // the failing write takes a part and says so
	readErr  error
	failed   int
	closed   chan struct{}
	once     sync.Once
}

func (f *faultConn) Read(b []byte) (int, error) {
	f.mu.Lock()
	n := copy(b, f.in)
	f.in = f.in[n:]
	err := f.readErr
	f.mu.Unlock()
	if n > 0 {
		return n, nil
	}
	if err != nil {
		return 0, err
	}
	<-f.closed
	return 0, net.ErrClosed
}

func (f *faultConn) Write(b []byte) (int, error) {
	select {
	case <-f.closed:
		return 0, net.ErrClosed
	default:
	}
	f.mu.Lock()
	defer f.mu.Unlock()
	if f.writeAt >= 0 && f.out+len(b) > f.writeAt {
		f.failed++
		n := 0
		if f.short {
			n = f.writeAt - f.out
		}
		f.writeAt = f.out + n
		f.out += n
		return n, f.writeErr
	}
	f.out += len(b)
	return len(b), nil
}

func (f *faultConn) Close() error                     { f.once.Do(func() { close(f.closed) }); return nil }
func (f *faultConn) LocalAddr() net.Addr              { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 1} }
func (f *faultConn) RemoteAddr() net.Addr             { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 2} }
func (f *faultConn) SetDeadline(time.Time) error      { return nil }
func (f *faultConn) SetReadDeadline(time.Time) error  { return nil }
func (f *faultConn) SetWriteDeadline(time.Time) error { return nil }

func (f *faultConn) isClosed() bool {
	select {
	case <-f.closed:
		return true
	default:
		return false
	}
}

// p04faults: every kind of write or read error, at every kind of place in the stream, ends the
// connection: a failing write ends it though nothing is wrong with the reading side.
func p04faults(c *Ctx) {
	werrs := []error{syscall.EPIPE, syscall.ECONNRESET, syscall.EHOSTUNREACH, errors.New("odd"), io.ErrShortWrite, io.EOF}
	rerrs := []error{io.EOF, io.ErrUnexpectedEOF, syscall.ECONNRESET, syscall.EHOSTUNREACH, errors.New("odd")}
	n := newNode(c, nil)
	big := bigBodies(c.R, [3]int{4300, 30, 20}, [3]int{130, 0, 1}, [3]int{40000, 0, 1})
	var fs []func(*rand.Rand)
	for i := 0; i < c.N(400); i++ {
		i := i
		fs = append(fs, func(r *rand.Rand) {
			f := &faultConn{in: ref.Frame(ref.THand, goodHand(r).Enc()), writeAt: -1, closed: make(chan struct{})}
			p, err := acceptAs(n.sy, f)
			if err != nil {
				c.Fail("accept: %v", err)
				return
			}
			// what the node sends
			var sizes []int
			var sends []func()
			for k := 1 + r.Intn(4); k > 0; k-- {
				switch r.Intn(4) {
				case 0:
					sizes, sends = append(sizes, 11+16), append(sends, p.SendPing)
				case 1:
					sizes, sends = append(sizes, 11+4), append(sends, func() { p.SendPeerRequest(consensus.CapFullNode) })
				default:
					h := nrmHdr(r)
					b := smallBody(r)
					raw := ref.EncBlock(h, b)
					blk := toBlock(h, b)
					if r.Intn(3) > 0 {
						x := big[r.Intn(len(big))]
						raw = append(h.Enc(), x.enc...)
						blk = new(consensus.Block)
						if err := blk.Read(newMemConn(raw)); err != nil {
							c.Fail("block: %v", err)
							return
						}
					}
					sizes, sends = append(sizes, 11+len(raw)), append(sends, func() { p.SendBlock(blk) })
				}
			}
			what := "write"
			f.mu.Lock()
			base := f.out
			if i%4 == 3 {
				// reading fails in the middle of a message, or between two
				what = "read"
				raw := append(innocent(r), innocent(r)...)
				raw = raw[:[]int{0, 1, 10, 11, 12, r.Intn(len(raw) + 1), len(raw)}[r.Intn(7)]%(len(raw)+1)]
				f.in, f.readErr = append(f.in, raw...), rerrs[r.Intn(len(rerrs))]
			} else {
				f.writeErr, f.short = werrs[r.Intn(len(werrs))], r.Intn(2) == 0
				at := r.Intn(len(sizes))
				f.writeAt = base
				for _, s := range sizes[:at] {
					f.writeAt += s
				}
				f.writeAt += []int{0, 1, 10, 11, 12, sizes[at] - 1, r.Intn(sizes[at]), min(4095, sizes[at]-1), min(4096, sizes[at]-1)}[r.Intn(9)]
			}
			at := f.writeAt - base
			f.mu.Unlock()
			desc := fmt.Sprintf("%s error %v/%v at %d of messages of %v bytes (short %v)", what, f.writeErr, f.readErr, at, sizes, f.short)
			c.Case("%s", desc)
			p.Start()
			for k, s := range sends {
				if ok, pa := Guard(Long, s); !ok || pa != "" {
					c.Viol("faults:send", "sending message %d blocks or panics (%s): %s", k, pa, desc)
					return
				}
			}
			if !Wait(Long, f.isClosed) {
				c.Viol("faults:open", "the socket is still open after a %s", desc)
				return
			}
			if ok, _ := Guard(Long, p.WaitForDisconnect); !ok {
				c.Viol("faults:wait", "waiters are not released after a %s", desc)
				return
			}
			if ok, pa := Guard(Long, func() { p.SendPing(); p.Close() }); !ok || pa != "" {
				c.Viol("faults:after", "sending or closing after the end blocks or panics (%s): %s", pa, desc)
				return
			}
			c.Count("faults_"+what, 1)
			c.Eval(fmt.Sprint(i, desc))
		})
	}
	parallel(c, fs...)
}
