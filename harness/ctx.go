package main

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand"
	"os"
	"runtime"
	"sync"
	"time"

	"github.com/sirupsen/logrus"
)

// Ctx collects what one job observed.
type Ctx struct {
	Prop, JobName string
	Seed          int64
	Thorough      bool
	R             *rand.Rand

	mu   sync.Mutex
	res  Result
	seen map[uint64]struct{}
	out  string
	cur  *os.File
	vcnt map[string]int

	began time.Time
}

func worker(id, job, out string) {
	logrus.SetOutput(io.Discard)
	switch id {
	case "P01", "P03", "C01", "C02", "C13", "C15":
		// at the library's own level (jobs may raise it)
	default:
		logrus.SetLevel(logrus.DebugLevel) // as cmd/node does
	}
	p := props[id]
	for _, j := range p.Jobs {
		if j.Name != job {
			continue
		}
		seed := envInt("VERIF_SEED", 1)
		h := fnv.New64a()
		fmt.Fprintf(h, "%s/%s/%d", id, job, seed)
		c := &Ctx{Prop: id, JobName: job, Seed: seed, Thorough: tierName() == "thorough",
			R: rand.New(rand.NewSource(int64(h.Sum64()))), out: out, seen: map[uint64]struct{}{}, vcnt: map[string]int{}, began: time.Now()}
		c.res.Counts = map[string]int64{}
		c.cur, _ = os.Create(out + ".cur")
		// The code under test ends the process through logrus.Fatal; say so before it does.
		logrus.StandardLogger().ExitFunc = func(code int) {
			buf := make([]byte, 1<<16)
			n := runtime.Stack(buf, false)
			fmt.Fprintf(os.Stderr, "FATAL-EXIT logrus.Fatal called\n%s\n", buf[:n])
			c.flush(false)
			os.Exit(97)
		}
		go hangWatch(c)
		j.Fn(c)
		c.flush(true)
		return
	}
	fmt.Fprintln(os.Stderr, "no such job", job)
	os.Exit(3)
}

func (c *Ctx) flush(done bool) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.res.Distinct = int64(len(c.seen))
	c.res.Done = done
	b, err := json.Marshal(&c.res)
	if err != nil {
		fmt.Fprintln(os.Stderr, "marshal:", err)
		os.Exit(3)
	}
	os.WriteFile(c.out+".tmp", b, 0o644)
	os.Rename(c.out+".tmp", c.out)
}

// N scales a case count with the tier.
func (c *Ctx) N(quick int) int {
	if c.Thorough {
		return quick * 12
	}
	return quick
}

// More tells whether a loop over N(quick) cases goes on at i. On a machine much slower than the
// one this was written on, a loop ends early rather than the check without an answer.
func (c *Ctx) More(i, quick int) bool {
	if i >= c.N(quick) {
		return false
	}
	late := 330 * time.Second
	if c.Thorough {
		late = 3 * time.Hour
	}
	if i == 0 || time.Since(c.began) < late {
		return true
	}
	c.Count("loops_cut_short", 1)
	return false
}

// Case names the case about to run, for the replay of a crash.
func (c *Ctx) Case(format string, a ...interface{}) {
	s := fmt.Sprintf(format, a...)
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.cur != nil {
		c.cur.Truncate(0)
		c.cur.WriteAt([]byte(clip(s, 100000)), 0)
	}
}

// Eval counts one evaluation; key identifies the distinct case ("" for none).
func (c *Ctx) Eval(key string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.res.Evals++
	if key != "" {
		h := fnv.New64a()
		h.Write([]byte(key))
		c.seen[h.Sum64()] = struct{}{}
	}
}

func (c *Ctx) Count(name string, n int) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.res.Counts[name] += int64(n)
}

// Max records the largest value seen.
func (c *Ctx) Max(name string, v int64) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if v > c.res.Counts[name] {
		c.res.Counts[name] = v
	}
}

func (c *Ctx) Sample(v interface{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.res.Samples) < 4 {
		c.res.Samples = append(c.res.Samples, v)
	}
}

// Viol records a violation; sig identifies the failing input, call site or history.
func (c *Ctx) Viol(sig string, format string, a ...interface{}) {
	c.ViolD(sig, nil, format, a...)
}

func (c *Ctx) ViolD(sig string, detail interface{}, format string, a ...interface{}) {
	c.mu.Lock()
	c.vcnt[sig]++
	n := c.vcnt[sig]
	if n <= 5 && len(c.res.Viols) < 200 {
		c.res.Viols = append(c.res.Viols, Violation{Sig: sig, Msg: clip(fmt.Sprintf(format, a...), 3000), Detail: detail})
	}
	c.mu.Unlock()
	if n <= 5 {
		c.flush(false)
	}
}

// Fail records trouble of the harness itself: the run is inconclusive.
func (c *Ctx) Fail(format string, a ...interface{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.res.Fails) < 20 {
		c.res.Fails = append(c.res.Fails, c.JobName+": "+fmt.Sprintf(format, a...))
	}
}

func (c *Ctx) Violated() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.res.Viols) > 0
}

// Guard runs f and reports whether it returned within the (generous) limit; a panic in f
// is returned as text.
func Guard(limit time.Duration, f func()) (ok bool, panicked string) {
	done := make(chan string, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				buf := make([]byte, 1<<14)
				n := runtime.Stack(buf, false)
				done <- fmt.Sprintf("panic: %v\n%s", r, buf[:n])
			}
		}()
		f()
		done <- ""
	}()
	select {
	case s := <-done:
		return true, s
	case <-time.After(limit):
		return false, ""
	}
}

// hangLimit is how long one direct call may take; the slowest healthy ones take seconds.
const hangLimit = 4 * time.Minute

var inFlight = struct {
	sync.Mutex
	last int64
	ids  map[int64]bool
}{ids: map[int64]bool{}}

// hangWatch ends the job when a direct call does not return. (Its clock is its own: calls may
// be made where the time stands still.)
func hangWatch(c *Ctx) {
	const tick = 2 * time.Second
	age := map[int64]int{}
	for {
		time.Sleep(tick)
		inFlight.Lock()
		for id := range age {
			if !inFlight.ids[id] {
				delete(age, id)
			}
		}
		old := 0
		for id := range inFlight.ids {
			age[id]++
			old = max(old, age[id])
		}
		inFlight.Unlock()
		if time.Duration(old)*tick > hangLimit {
			all := stacks()
			c.mu.Lock()
			cur, _ := os.ReadFile(c.out + ".cur")
			c.mu.Unlock()
			c.ViolD("hang", clip(all, 12000), "a call did not return within %v; case: %s", hangLimit, clip(string(cur), 400))
			c.flush(true)
			os.Exit(0)
		}
		if old > 0 {
			c.Max("max_call_seconds", int64(time.Duration(old)*tick/time.Second))
		}
	}
}

// Try runs f on this goroutine and returns the text of a panic, if any.
func Try(f func()) (panicked string) {
	inFlight.Lock()
	inFlight.last++
	id := inFlight.last
	inFlight.ids[id] = true
	inFlight.Unlock()
	defer func() {
		inFlight.Lock()
		delete(inFlight.ids, id)
		inFlight.Unlock()
	}()
	defer func() {
		if r := recover(); r != nil {
			buf := make([]byte, 1<<13)
			n := runtime.Stack(buf, false)
			panicked = fmt.Sprintf("panic: %v\n%s", r, buf[:n])
		}
	}()
	f()
	return ""
}

// Wait polls cond until it holds or the generous limit passes.
func Wait(limit time.Duration, cond func() bool) bool {
	end := time.Now().Add(limit)
	for d := 200 * time.Microsecond; ; {
		if cond() {
			return true
		}
		if time.Now().After(end) {
			return false
		}
		time.Sleep(d)
		if d < 20*time.Millisecond {
			d *= 2
		}
	}
}

func stacks() string {
	buf := make([]byte, 4<<20)
	return string(buf[:runtime.Stack(buf, true)])
}

func hx(b []byte) string { return clip(hex.EncodeToString(b), 400) }

func subRand(r *rand.Rand) *rand.Rand { return rand.New(rand.NewSource(r.Int63())) }
