package main

import (
	"encoding/binary"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"testing"
	"testing/synctest"
	"time"

	"github.com/dblokhin/gringo/consensus"
	"github.com/dblokhin/gringo/cuckoo"

	"verif/ref"
)

// ---- C06: cycle proofs ----

// graph is one cuckoo or cuckaroo graph with all its edges.
type graph struct {
	roo    bool
	key    []byte
	keys   [4]uint64
	direct bool // the verifier is made from the keys themselves
	bits   uint8
	ease   uint64
	es     []ref.Edge
	adjU   map[uint64][]uint32
	adjV   map[uint64][]uint32
}

func rndGraph(r *rand.Rand, roo bool, bits uint8, ease uint64) *graph {
	g := &graph{roo: roo, bits: bits, ease: ease, adjU: map[uint64][]uint32{}, adjV: map[uint64][]uint32{}}
	g.key = make([]byte, r.Intn(90))
	r.Read(g.key)
	g.keys = ref.KeysOf(g.key)
	if roo && r.Intn(2) == 0 {
		g.direct = true
		for i := range g.keys {
			g.keys[i] = r.Uint64()
		}
	}
	n := uint64(1) << bits
	if !roo {
		n = ease * n / 100
	}
	for i := uint64(0); i < n; i++ {
		var e ref.Edge
		if roo {
			e = ref.CuckarooEdge(g.keys, uint32(i), bits)
		} else {
			e = ref.CuckooEdge(g.keys, uint32(i), bits)
		}
		g.es = append(g.es, e)
		g.adjU[e.U] = append(g.adjU[e.U], uint32(i))
		g.adjV[e.V] = append(g.adjV[e.V], uint32(i))
	}
	return g
}

func (g *graph) want(ns []uint32) bool {
	if g.roo {
		return ref.CuckarooOK(g.keys, ns, g.bits)
	}
	return ref.CuckooOK(g.keys, ns, g.bits, g.ease)
}

func (g *graph) got(ns []uint32) bool {
	in := append([]uint32(nil), ns...)
	if g.roo {
		if g.direct {
			return cuckoo.NewFromKeys(g.keys).Verify(in, g.bits)
		}
		return cuckoo.NewCuckaroo(g.key).Verify(in, g.bits)
	}
	return cuckoo.New(g.key, g.bits).Verify(in, g.ease)
}

func (g *graph) name() string {
	if g.roo {
		return "cuckaroo"
	}
	return "cuckoo"
}

// judge06 compares one verdict.
func judge06(c *Ctx, g *graph, kind string, ns []uint32) {
	want := g.want(ns)
	var got bool
	if p := Try(func() { got = g.got(ns) }); p != "" {
		c.Viol(g.name()+":panic", "%s graph of %d bits, key %x keys %x, nonces %v: %s", g.name(), g.bits, g.key, g.keys, ns, p)
		return
	}
	if want != got {
		c.Viol(fmt.Sprintf("%s:%s:accepted=%v", g.name(), kind, got), "%s graph of %d bits (ease %d), key %x keys %x direct %v: nonces %v (%s) accepted=%v, they form one simple cycle: %v",
			g.name(), g.bits, g.ease, g.key, g.keys, g.direct, ns, kind, got, want)
	}
	if want {
		c.Count("cycles_accepted", 1)
		c.Count(fmt.Sprintf("cycle_len_%02d", min(len(ns)/4*4, 60)), 1)
	}
	c.Count("kind_"+kind, 1)
	c.Eval(fmt.Sprintf("%v%d%x%v", g.roo, g.bits, g.keys, ns))
}

// c06exhaust offers every set of edges of tiny graphs.
func c06exhaust(c *Ctx) {
	for i := 0; c.More(i, 24); i++ {
		roo := i%2 == 0
		bits := uint8(1 + c.R.Intn(4))
		ease := uint64(100)
		if !roo {
			ease = []uint64{50, 75, 100}[c.R.Intn(3)]
		}
		if i < 4 {
			bits = 4
		}
		g := rndGraph(c.R, roo, bits, ease)
		if len(g.es) > 16 {
			continue
		}
		c.Case("all subsets of %s %d bits key %x keys %x", g.name(), bits, g.key, g.keys)
		for m := 0; m < 1<<len(g.es); m++ {
			var ns []uint32
			for k := range g.es {
				if m>>k&1 == 1 {
					ns = append(ns, uint32(k))
				}
			}
			judge06(c, g, "subset", ns)
		}
	}
}

// cycleVia looks for simple cycles of the graph by random walks with backtracking budget.
func (g *graph) cycleVia(r *rand.Rand, start uint32, maxLen, budget int) []uint32 {
	// path of edges; arrive alternately at V and U vertices
	first := g.es[start]
	path := []uint32{start}
	onU := map[uint64]bool{first.U: true}
	onV := map[uint64]bool{first.V: true}
	var res []uint32
	var rec func(atV bool) bool
	rec = func(atV bool) bool {
		budget--
		if budget < 0 {
			return false
		}
		last := path[len(path)-1]
		var nb []uint32
		if atV {
			nb = g.adjV[g.es[last].V]
		} else {
			nb = g.adjU[g.es[last].U]
		}
		for _, k := range r.Perm(len(nb)) {
			e := nb[k]
			if e == last {
				continue
			}
			if atV {
				// leads to a U vertex
				if g.es[e].U == first.U && e != start {
					res = append(append([]uint32(nil), path...), e)
					return true
				}
				if onU[g.es[e].U] || len(path) >= maxLen {
					continue
				}
				onU[g.es[e].U] = true
				path = append(path, e)
				if rec(false) {
					return true
				}
				path = path[:len(path)-1]
				delete(onU, g.es[e].U)
			} else {
				if onV[g.es[e].V] || len(path) >= maxLen {
					continue
				}
				onV[g.es[e].V] = true
				path = append(path, e)
				if rec(true) {
					return true
				}
				path = path[:len(path)-1]
				delete(onV, g.es[e].V)
			}
		}
		return false
	}
	if !rec(true) {
		return nil
	}
	sort.Slice(res, func(i, j int) bool { return res[i] < res[j] })
	return res
}

func sortU32(x []uint32) []uint32 {
	x = append([]uint32(nil), x...)
	sort.Slice(x, func(i, j int) bool { return x[i] < x[j] })
	return x
}

func uniqU32(x []uint32) []uint32 {
	x = sortU32(x)
	var y []uint32
	for i, v := range x {
		if i == 0 || v != x[i-1] {
			y = append(y, v)
		}
	}
	return y
}

// variants offers a cycle and near misses of it.
func variants(c *Ctx, g *graph, cyc []uint32, other []uint32) {
	r := c.R
	n := uint32(len(g.es))
	judge06(c, g, "cycle", cyc)
	i := r.Intn(len(cyc))
	drop := append(append([]uint32(nil), cyc[:i]...), cyc[i+1:]...)
	judge06(c, g, "path", drop)
	if n > 0 {
		judge06(c, g, "cycle+edge", uniqU32(append([]uint32{uint32(r.Intn(int(n)))}, cyc...)))
		judge06(c, g, "swap", uniqU32(append([]uint32{uint32(r.Intn(int(n)))}, drop...)))
	}
	// lassos: a tail hanging off the cycle
	var tail []uint32
	e := cyc[r.Intn(len(cyc))]
	atU := r.Intn(2) == 0
	for k := 1 + r.Intn(5); k > 0; k-- {
		nb := g.adjV[g.es[e].V]
		if atU {
			nb = g.adjU[g.es[e].U]
		}
		e = nb[r.Intn(len(nb))]
		tail = append(tail, e)
		atU = !atU
		judge06(c, g, "lasso", uniqU32(append(append([]uint32(nil), tail...), cyc...)))
		judge06(c, g, "open-lasso", uniqU32(append(append([]uint32(nil), tail...), drop...)))
	}
	if other != nil {
		judge06(c, g, "two-cycles", uniqU32(append(append([]uint32(nil), cyc...), other...)))
		// symmetric difference: often another closed figure
		m := map[uint32]int{}
		for _, x := range cyc {
			m[x]++
		}
		for _, x := range other {
			m[x]++
		}
		var sd []uint32
		for x, k := range m {
			if k == 1 {
				sd = append(sd, x)
			}
		}
		judge06(c, g, "difference", sortU32(sd))
	}
	if len(cyc) > 1 {
		sw := append([]uint32(nil), cyc...)
		a := r.Intn(len(sw) - 1)
		sw[a], sw[a+1] = sw[a+1], sw[a]
		judge06(c, g, "unsorted", sw)
		sw = append([]uint32(nil), cyc...)
		r.Shuffle(len(sw), func(i, j int) { sw[i], sw[j] = sw[j], sw[i] })
		judge06(c, g, "shuffled", sw)
	}
	dup := append([]uint32(nil), cyc...)
	dup = append(dup, dup[r.Intn(len(dup))])
	judge06(c, g, "duplicate", sortU32(dup))
	judge06(c, g, "doubled", sortU32(append(append([]uint32(nil), cyc...), cyc...)))
	dup = append([]uint32(nil), cyc...)
	dup[r.Intn(len(dup))] = dup[r.Intn(len(dup))]
	judge06(c, g, "overwritten", sortU32(dup))
	if g.bits < 31 {
		big := append([]uint32(nil), cyc...)
		// the same edge modulo the graph's size
		big[len(big)-1] += 1 << g.bits
		judge06(c, g, "out-of-range", big)
		big[len(big)-1] = n
		judge06(c, g, "out-of-range", sortU32(big))
	}
}

func c06cycles(c *Ctx) {
	for i := 0; c.More(i, 220); i++ {
		roo := i%2 == 0
		var g *graph
		if roo {
			g = rndGraph(c.R, true, uint8(3+c.R.Intn(10)), 0)
		} else {
			g = rndGraph(c.R, false, uint8(4+c.R.Intn(9)), []uint64{50, 60, 75, 100, 100, 130}[c.R.Intn(6)])
		}
		c.Case("%s %d bits ease %d key %x keys %x", g.name(), g.bits, g.ease, g.key, g.keys)
		var prev []uint32
		for k := 0; k < 25; k++ {
			cyc := g.cycleVia(c.R, uint32(c.R.Intn(len(g.es))), []int{2, 4, 6, 10, 42, 60}[c.R.Intn(6)], 4000)
			if cyc == nil {
				continue
			}
			if !g.want(cyc) {
				c.Fail("generator made no cycle: %v", cyc)
				return
			}
			variants(c, g, cyc, prev)
			prev = cyc
		}
		// random ascending sets
		for k := 0; k < 40; k++ {
			var ns []uint32
			for m := 1 + c.R.Intn(12); m > 0; m-- {
				ns = append(ns, uint32(c.R.Intn(len(g.es)+1)))
			}
			judge06(c, g, "random", uniqU32(ns))
		}
	}
	c06long(c)
	for _, ns := range [][]uint32{nil, {}} {
		for _, roo := range []bool{true, false} {
			judge06(c, rndGraph(c.R, roo, 5, 100), "empty", ns)
		}
	}
}

// c06long offers long cycles, and cycles among many edges that have nothing to do with
// them: the numbers of edges are told apart however large they are.
func c06long(c *Ctx) {
	for i := 0; c.More(i, 14); i++ {
		g := rndGraph(c.R, i%2 == 0, uint8(11+c.R.Intn(3)), 100)
		c.Case("long %s %d bits key %x keys %x", g.name(), g.bits, g.key, g.keys)
		// few edges of a cuckaroo graph are on a cycle
		found := 0
		for k := 0; k < 6 || g.roo && k < 6000 && found < 3; k++ {
			budget := 60000
			if g.roo {
				budget = 4000
			}
			cyc := g.cycleVia(c.R, uint32(c.R.Intn(len(g.es))), []int{300, 1000, 5000}[c.R.Intn(3)], budget)
			if cyc == nil {
				continue
			}
			found++
			c.Count("among_"+g.name(), 1)
			c.Max("max_cycle_len", int64(len(cyc)))
			variants(c, g, cyc, nil)
			g.among(c, cyc, cyc[0], []int{1, 128, 254, 255, 256, 257, 512, 1024, 1536})
		}
	}
	// short cycles of bigger graphs among 2^16 others
	for i := 0; c.More(i, 4); i++ {
		g := rndGraph(c.R, i%2 == 0, 18, 100)
		c.Case("wide %s key %x keys %x", g.name(), g.key, g.keys)
		for k := 0; k < 200000; k++ {
			start := uint32(c.R.Intn(len(g.es)))
			if cyc := g.cycleVia(c.R, start, 42, 2000); cyc != nil && cyc[0] < 100000 {
				c.Count("wide_"+g.name(), 1)
				g.among(c, cyc, cyc[0], []int{256, 65535, 65536, 65536 + 256, 131072 - len(cyc)})
				break
			}
		}
	}
}

// among puts a cycle among extra edges, none of which meets it, all after edge `from` (and,
// second, anywhere).
func (g *graph) among(c *Ctx, cyc []uint32, from uint32, extra []int) {
	u, v := map[uint64]bool{}, map[uint64]bool{}
	for _, e := range cyc {
		u[g.es[e].U], v[g.es[e].V] = true, true
	}
	var apart []uint32
	for _, e := range c.R.Perm(len(g.es)) {
		if !u[g.es[e].U] && !v[g.es[e].V] {
			apart = append(apart, uint32(e))
		}
	}
	for _, n := range extra {
		for _, anywhere := range []bool{false, true} {
			ns := append([]uint32(nil), cyc...)
			for _, e := range apart {
				if len(ns) < len(cyc)+n && (anywhere || e > from) {
					ns = append(ns, e)
				}
			}
			if len(ns) == len(cyc)+n {
				judge06(c, g, "among", sortU32(ns))
			}
		}
	}
}

// c06real uses real 42-cycles of full-size graphs.
func c06real(c *Ctx) {
	var gs []*graph
	var cs [][]uint32
	gs = append(gs, &graph{key: []byte{49}, keys: ref.KeysOf([]byte{49}), bits: 20, ease: 75})
	cs = append(cs, []uint32{
		0x3bbd, 0x4e96, 0x1013b, 0x1172b, 0x1371b, 0x13e6a, 0x1aaa6, 0x1b575,
		0x1e237, 0x1ee88, 0x22f94, 0x24223, 0x25b4f, 0x2e9f3, 0x33b49, 0x34063,
		0x3454a, 0x3c081, 0x3d08e, 0x3d863, 0x4285a, 0x42f22, 0x43122, 0x4b853,
		0x4cd0c, 0x4f280, 0x557d5, 0x562cf, 0x58e59, 0x59a62, 0x5b568, 0x644b9,
		0x657e9, 0x66337, 0x6821c, 0x7866f, 0x7e14b, 0x7ec7c, 0x7eed7, 0x80643,
		0x8628c, 0x8949e})
	gs = append(gs, &graph{roo: true, direct: true, bits: 19, keys: [4]uint64{0x23796193872092ea, 0xf1017d8a68c4b745, 0xd312bd53d2cd307b, 0x840acce5833ddc52}})
	cs = append(cs, []uint32{
		0x45e9, 0x6a59, 0xf1ad, 0x10ef7, 0x129e8, 0x13e58, 0x17936, 0x19f7f, 0x208df, 0x23704,
		0x24564, 0x27e64, 0x2b828, 0x2bb41, 0x2ffc0, 0x304c5, 0x31f2a, 0x347de, 0x39686, 0x3ab6c,
		0x429ad, 0x45254, 0x49200, 0x4f8f8, 0x5697f, 0x57ad1, 0x5dd47, 0x607f8, 0x66199, 0x686c7,
		0x6d5f3, 0x6da7a, 0x6dbdf, 0x6f6bf, 0x6ffbb, 0x7580e, 0x78594, 0x785ac, 0x78b1d, 0x7b80d,
		0x7c11c, 0x7da35})
	for _, name := range fixtureNames() {
		h := fixtureHdr(c, name)
		g := &graph{roo: true, key: h.EncNoPow(), bits: h.EdgeBits}
		g.keys = ref.KeysOf(g.key)
		gs = append(gs, g)
		cs = append(cs, h.Nonces)
	}
	for i, g := range gs {
		cyc := cs[i]
		if !g.want(cyc) {
			c.Fail("vector %d is no cycle", i)
			continue
		}
		judge06(c, g, "cycle", cyc)
		for k := 0; c.More(k, 60); k++ {
			x := append([]uint32(nil), cyc...)
			j := c.R.Intn(len(x))
			switch c.R.Intn(7) {
			case 0:
				x[j] ^= 1 << uint(c.R.Intn(32))
				judge06(c, g, "bitflip", x)
			case 1:
				x[j] ^= 1 << uint(c.R.Intn(int(min(g.bits, 31))))
				judge06(c, g, "bitflip-sorted", sortU32(x))
			case 2:
				judge06(c, g, "path", append(x[:j], x[j+1:]...))
			case 3:
				y := append(x, uint32(c.R.Int63n(1<<min(g.bits, 31))))
				judge06(c, g, "cycle+edge", uniqU32(y))
			case 4:
				l := c.R.Intn(len(x))
				x[j], x[l] = x[l], x[j]
				judge06(c, g, "unsorted", x)
			case 5:
				x[j] = x[c.R.Intn(len(x))]
				judge06(c, g, "overwritten", sortU32(x))
			case 6:
				if g.bits < 31 {
					x[j] += 1 << g.bits
					judge06(c, g, "out-of-range", sortU32(x))
				}
			}
		}
		if g.roo {
			for d := 0; d < 256; d++ {
				if g2 := *g; uint8(d) != g.bits {
					g2.bits = uint8(d)
					judge06(c, &g2, "other-size", cyc)
				}
			}
			g2 := *g
			g2.direct = true
			g2.keys[c.R.Intn(4)] ^= 1 << uint(c.R.Intn(64))
			judge06(c, &g2, "other-key", cyc)
		} else {
			for _, ease := range []uint64{0, 1, 50, 53, 54, 74, 76, 100} {
				g2 := *g
				g2.ease = ease
				judge06(c, &g2, "other-ease", cyc)
			}
		}
	}
	// any list on any graph size: only a verdict is asked for
	for i := 0; c.More(i, 3000); i++ {
		g := &graph{roo: c.R.Intn(2) == 0, direct: true, bits: uint8(c.R.Intn(64)), ease: uint64(c.R.Intn(101))}
		if g.roo {
			for k := range g.keys {
				g.keys[k] = rndU64(c.R)
			}
		} else {
			g.bits = uint8(1 + c.R.Intn(40))
			g.key = make([]byte, 8)
			c.R.Read(g.key)
			g.keys = ref.KeysOf(g.key)
		}
		ns := make([]uint32, c.R.Intn(50))
		for k := range ns {
			ns[k] = c.R.Uint32() >> uint(c.R.Intn(32))
		}
		if c.R.Intn(2) == 0 {
			ns = uniqU32(ns)
		}
		judge06(c, g, "any", ns)
	}
}

// ---- header fixtures ----

// headerFixtures are mined headers (tools/miner), each made for one rule.
var headerFixtures = []string{"b0", "b1", "b2", "b3", "b1fork", "e12", "e16", "e20", "e24", "e28", "e30", "e30scale", "e31", "future", "tswrap",
	"v1late", "v2ok", "v3ok", "v3late"}

func fixtureNames() (l []string) {
	for _, n := range headerFixtures {
		if haveFixture(n) {
			l = append(l, n)
		}
	}
	return
}

func haveFixture(name string) bool {
	_, err := fixtureFS.ReadFile("fixtures/" + name + ".hex")
	return err == nil
}

func fixtureHdr(c *Ctx, name string) ref.Hdr {
	r := &ref.R{B: fixture(name)}
	h, err := ref.DecHdr(r)
	if err != nil {
		c.Fail("fixture %s: %v", name, err)
	}
	return h
}

// ---- C07 ----

// clocked is something to do when the clock reads exactly at.
type clocked struct {
	at time.Time
	f  func()
}

// runClocked runs each entry in a bubble of virtual time. It ends the job: the testing
// package, the only door to virtual time, exits the process.
func runClocked(c *Ctx, l []clocked) {
	testing.Init()
	os.Args = os.Args[:1]
	flag.Parse()
	n := 0
	testing.Main(func(pat, str string) (bool, error) { return true, nil },
		[]testing.InternalTest{{Name: "clock", F: func(t *testing.T) {
			for _, e := range l {
				synctest.Test(t, func(t *testing.T) {
					time.Sleep(time.Until(e.at))
					if !time.Now().Equal(e.at) {
						c.Fail("clock reads %v, not %v", time.Now(), e.at)
						return
					}
					e.f()
					n++
				})
			}
			c.Count("exact_clock_readings", n)
			if n != len(l) {
				c.Fail("only %d of %d clocked runs ran", n, len(l))
			}
			c.flush(true)
		}}}, nil, nil)
}

// headerOK is the rule, the proof apart.
func headerRules(h ref.Hdr, now int64) bool {
	if !versionOK(h.Height, h.Version) {
		return false
	}
	if h.TS > now+720 {
		return false
	}
	if h.EdgeBits < 29 {
		return false
	}
	return h.EdgeBits == 29 || h.Scaling == 1
}

func versionOK(height uint64, v uint16) bool {
	switch {
	case height < 95000:
		return v == 1
	case height < 250000:
		return v == 2
	case height < 500000:
		return v == 3
	}
	return false
}

func headerOK(h ref.Hdr, now int64) bool {
	return headerRules(h, now) && len(h.Nonces) == 42 && ref.CuckarooOK(ref.KeysOf(h.EncNoPow()), h.Nonces, h.EdgeBits)
}

func judge07(c *Ctx, what string, h ref.Hdr, now int64) {
	want := headerOK(h, now)
	x := toHdr(h)
	var err error
	if p := Try(func() { err = x.Validate() }); p != "" {
		c.Viol("panic", "%s: %s", what, p)
		return
	}
	if (err == nil) != want {
		c.Viol(fmt.Sprintf("%s:accepted=%v", what, err == nil), "header %s (version %d height %d time %d bits %d scaling %d) at %d: Validate says %v, the rules say accept=%v",
			what, h.Version, h.Height, h.TS, h.EdgeBits, h.Scaling, now, err, want)
	}
	if want {
		c.Count("accepted", 1)
	} else {
		c.Count("refused", 1)
	}
	c.Eval(fmt.Sprintf("%v %d", h, now))
}

func c07version(c *Ctx) {
	try := func(h uint64, v uint16) {
		got := consensus.ValidateBlockVersion(h, v)
		if got != versionOK(h, v) {
			c.Viol("version", "version %d at height %d: accepted=%v", v, h, got)
		}
		c.Eval(fmt.Sprint(h, "/", v))
	}
	bounds := []uint64{0, 95000, 250000, 500000, 750000, 1000000, 1 << 32, 1 << 63}
	for _, b := range bounds {
		for d := uint64(0); d < 300; d++ {
			for v := uint16(0); v < 7; v++ {
				try(b+d, v)
				try(b-d, v)
			}
		}
	}
	for i := 0; c.More(i, 200000); i++ {
		try(uint64(c.R.Int63n(800000)), uint16(c.R.Intn(6)))
		try(rndU64(c.R), uint16(rndU64(c.R)))
	}
}

func c07rules(c *Ctx) {
	now := time.Now().Unix()
	real := func(what string, h ref.Hdr) { judge07(c, what, h, now) }
	for _, name := range fixtureNames() {
		h := fixtureHdr(c, name)
		real("fixture-"+name, h)
		c.Sample(map[string]interface{}{"fixture": name, "version": h.Version, "height": h.Height, "bits": h.EdgeBits, "scaling": h.Scaling, "time": h.TS, "accept": headerOK(h, now)})
		// decoded from the wire, too
		var bh consensus.BlockHeader
		if err := bh.Read(newMemConn(fixture(name))); err != nil {
			c.Viol("read:"+name, "fixture %s does not decode: %v", name, err)
		} else if err := bh.Validate(); (err == nil) != headerOK(h, now) {
			c.Viol("fixture-"+name, "decoded fixture %s: Validate says %v", name, err)
		}
		// proofs that are not for this header
		for k := 0; c.More(k, 12); k++ {
			x := h
			x.Nonces = append([]uint32(nil), h.Nonces...)
			switch c.R.Intn(8) {
			case 0:
				x.Nonce ^= 1 << uint(c.R.Intn(64))
			case 1:
				x.Nonces[c.R.Intn(42)] ^= 1 << uint(c.R.Intn(int(min(31, x.EdgeBits))))
			case 2:
				x.Scaling++
			case 3:
				x.Version++
			case 4:
				x.EdgeBits = uint8(27 + c.R.Intn(6))
			case 5:
				x.Nonces = x.Nonces[:c.R.Intn(42)]
			case 6:
				x.Nonces = append(x.Nonces, x.Nonces[41]+1)
			case 7:
				x.Height += uint64(c.R.Intn(400000))
			}
			real("altered", x)
		}
	}
	// boundaries of the future limit on an exact clock
	var l []clocked
	add := func(name string, h ref.Hdr, at int64) {
		if at < 946684800 {
			return
		}
		l = append(l, clocked{time.Unix(at, 0).UTC(), func() { judge07(c, fmt.Sprintf("clock-%s%+d", name, at-h.TS), h, at) }})
	}
	for _, name := range []string{"b0", "b1", "future", "v2ok", "v3ok", "e30", "e31", "tswrap", "v1late"} {
		if !haveFixture(name) {
			continue
		}
		h := fixtureHdr(c, name)
		if name == "tswrap" {
			// no clock can reach it: it is refused at any time
			for _, at := range []int64{978307200, 4102444800, 9000000000} {
				add(name, h, at)
			}
			continue
		}
		for _, o := range []int64{-100000000, -86400, -722, -721, -720, -719, -60, -12, -1, 0, 1, 60, 719, 720, 721, 100000000} {
			add(name, h, h.TS+o)
		}
		for i := 0; c.More(i, 20); i++ {
			add(name, h, h.TS-720+int64(c.R.Intn(5))-2)
		}
	}
	runClocked(c, l)
}

// c07proof: the proof part alone, on small graphs where other cycle lengths are easy to find.
func c07proof(c *Ctx) {
	lens := map[int]int{}
	for i := 0; c.More(i, 1500); i++ {
		h := rndHdr(c.R)
		h.EdgeBits = uint8(2 + c.R.Intn(8))
		h.Nonces = make([]uint32, 42)
		g := &graph{roo: true, key: h.EncNoPow(), bits: h.EdgeBits, adjU: map[uint64][]uint32{}, adjV: map[uint64][]uint32{}}
		g.keys = ref.KeysOf(g.key)
		for n := uint32(0); n < 1<<g.bits; n++ {
			e := ref.CuckarooEdge(g.keys, n, g.bits)
			g.es = append(g.es, e)
			g.adjU[e.U] = append(g.adjU[e.U], n)
			g.adjV[e.V] = append(g.adjV[e.V], n)
		}
		for k := 0; k < 12; k++ {
			cyc := g.cycleVia(c.R, uint32(c.R.Intn(len(g.es))), 60, 2000)
			if cyc == nil {
				continue
			}
			h.Nonces = cyc
			x := toHdr(h)
			var err error
			if p := Try(func() { err = x.POW.Validate(&x, x.POW.EdgeBits) }); p != "" {
				c.Viol("proof-panic", "cycle of %d: %s", len(cyc), p)
				continue
			}
			if (err == nil) != (len(cyc) == 42) {
				c.Viol(fmt.Sprintf("cycle-length:accepted=%v", err == nil), "a proof that is a simple cycle of %d nonces: Validate says %v; header %x nonces %v", len(cyc), err, h.EncNoPow(), cyc)
			}
			lens[len(cyc)]++
			c.Eval(fmt.Sprint(g.keys, cyc))
		}
	}
	for l, n := range lens {
		c.Count(fmt.Sprintf("cycle_len_%02d", l), n)
	}
	// full proofs of every graph size mined
	for _, name := range fixtureNames() {
		h := fixtureHdr(c, name)
		x := toHdr(h)
		if err := x.POW.Validate(&x, x.POW.EdgeBits); (err == nil) != (len(h.Nonces) == 42) {
			c.Viol("proof-of-"+name, "POW.Validate of fixture %s with %d nonces says %v", name, len(h.Nonces), err)
		}
		c.Eval(name)
	}
}

// ---- C08 ----

func c08bind(c *Ctx) {
	now := time.Now().Unix()
	_ = now
	for _, name := range fixtureNames() {
		h := fixtureHdr(c, name)
		if len(h.Nonces) != 42 {
			continue
		}
		raw := fixture(name)
		pre := len(h.EncNoPow())
		x := toHdr(h)
		if err := x.POW.Validate(&x, x.POW.EdgeBits); err != nil {
			c.Viol("valid-refused:"+name, "unaltered %s: %v", name, err)
			continue
		}
		// every bit of every transmitted field before the proof, the graph size, and sampled proof bits
		var bits []int
		for b := 0; b < pre*8; b++ {
			if c.Thorough || b%8 == c.R.Intn(8) || c.R.Intn(4) == 0 {
				bits = append(bits, b)
			}
		}
		for b := pre * 8; b < pre*8+8; b++ {
			bits = append(bits, b)
		}
		for k := 0; c.More(k, 250); k++ {
			bits = append(bits, (pre+1)*8+c.R.Intn(42*int(h.EdgeBits)))
		}
		for _, b := range bits {
			m := append([]byte(nil), raw...)
			m[b/8] ^= 1 << uint(b%8)
			bh := new(consensus.BlockHeader)
			err := bh.Read(newMemConn(append(m, make([]byte, 400)...)))
			if err != nil {
				c.Count("undecodable", 1)
				continue
			}
			if e := bh.POW.Validate(bh, bh.POW.EdgeBits); e == nil {
				c.Viol(fmt.Sprintf("altered-accepted:byte%d", b/8), "fixture %s with bit %d of byte %d (of %d before the proof) changed still carries a valid proof", name, b%8, b/8, pre)
			}
			c.Eval(fmt.Sprint(name, b))
		}
		// every field of the object
		type mut struct {
			n string
			f func(h *consensus.BlockHeader)
		}
		flip := func(p *consensus.Hash) {
			q := append(consensus.Hash(nil), *p...)
			q[c.R.Intn(len(q))] ^= 1 << uint(c.R.Intn(8))
			*p = q
		}
		for _, m := range []mut{
			{"version", func(h *consensus.BlockHeader) { h.Version++ }},
			{"height", func(h *consensus.BlockHeader) { h.Height++ }},
			{"time", func(h *consensus.BlockHeader) { h.Timestamp = h.Timestamp.Add(time.Second) }},
			{"previous", func(h *consensus.BlockHeader) { flip(&h.Previous) }},
			{"previous root", func(h *consensus.BlockHeader) { flip(&h.PreviousRoot) }},
			{"utxo root", func(h *consensus.BlockHeader) { flip(&h.UTXORoot) }},
			{"proof root", func(h *consensus.BlockHeader) { flip(&h.RangeProofRoot) }},
			{"kernel root", func(h *consensus.BlockHeader) { flip(&h.KernelRoot) }},
			{"offset", func(h *consensus.BlockHeader) { flip(&h.TotalKernelOffset) }},
			{"output size", func(h *consensus.BlockHeader) { h.OutputMmrSize++ }},
			{"kernel size", func(h *consensus.BlockHeader) { h.KernelMmrSize++ }},
			{"total difficulty", func(h *consensus.BlockHeader) { h.TotalDifficulty++ }},
			{"scaling", func(h *consensus.BlockHeader) { h.ScalingDifficulty++ }},
			{"nonce", func(h *consensus.BlockHeader) { h.Nonce++ }},
			{"graph size", func(h *consensus.BlockHeader) { h.POW.EdgeBits++ }},
			{"graph size", func(h *consensus.BlockHeader) { h.POW.EdgeBits-- }},
			{"graph size", func(h *consensus.BlockHeader) { h.POW.EdgeBits += uint8(2 + c.R.Intn(252)) }},
			{"nonces", func(h *consensus.BlockHeader) {
				h.POW.Nonces = append([]uint32(nil), h.POW.Nonces...)
				h.POW.Nonces[c.R.Intn(42)]++
			}},
			{"nonces order", func(h *consensus.BlockHeader) {
				h.POW.Nonces = append([]uint32(nil), h.POW.Nonces...)
				i := c.R.Intn(41)
				h.POW.Nonces[i], h.POW.Nonces[i+1] = h.POW.Nonces[i+1], h.POW.Nonces[i]
			}},
		} {
			y := toHdr(h)
			m.f(&y)
			if err := y.POW.Validate(&y, y.POW.EdgeBits); err == nil {
				c.Viol("altered-accepted:"+m.n, "fixture %s with another %s still carries a valid proof", name, m.n)
			}
			c.Eval(name + m.n)
		}
		for d := 1; d < 256; d++ {
			y := toHdr(h)
			y.POW.EdgeBits += uint8(d)
			if err := y.POW.Validate(&y, y.POW.EdgeBits); err == nil {
				c.Viol("altered-accepted:graph size", "the proof of fixture %s is accepted as one of %d bits", name, y.POW.EdgeBits)
			}
			c.Eval(fmt.Sprint(name, "size", d))
		}
	}
}

func c08ident(c *Ctx) {
	seen := map[string]string{}
	for i := 0; c.More(i, 6000); i++ {
		h := rndHdr(c.R)
		id := h.ID()
		x := toHdr(h)
		blk := consensus.Block{Header: toHdr(h)}
		cb := consensus.CompactBlock{Header: toHdr(h)}
		for what, got := range map[string]consensus.Hash{"header": x.Hash(), "block": blk.Hash(), "compact block": cb.Hash()} {
			if string(got) != string(id[:]) {
				c.Viol("identity:"+what, "identity of a %s is %x, the hash of its packed nonces is %x (bits %d nonces %v)", what, []byte(got), id, h.EdgeBits, h.Nonces)
			}
		}
		packed := string(ref.PackNonces(h.EdgeBits, h.Nonces))
		if o, ok := seen[string(x.Hash())]; ok && o != packed {
			c.Viol("identity:collision", "two different proofs have the identity %x", []byte(x.Hash()))
		}
		seen[string(x.Hash())] = packed
		if got, want := uint64(x.POW.ToDifficulty()), h.PowDifficulty(); got != want {
			c.Viol("difficulty", "difficulty of proof (bits %d nonces %v) is %d, expected %d", h.EdgeBits, h.Nonces, got, want)
		}
		// identity depends on the nonces only
		y := rndHdr(c.R)
		y.EdgeBits, y.Nonces = h.EdgeBits, h.Nonces
		z := toHdr(y)
		if string(z.Hash()) != string(id[:]) {
			c.Viol("identity:fields", "identity depends on more than the nonces")
		}
		c.Eval(string(id[:]))
	}
	for i := 0; c.More(i, 60000); i++ {
		var h [32]byte
		c.R.Read(h[:])
		switch c.R.Intn(6) {
		case 0:
			copy(h[:8], make([]byte, 8))
		case 1:
			binary.BigEndian.PutUint64(h[:], uint64(c.R.Intn(20)))
		case 2:
			binary.BigEndian.PutUint64(h[:], rndU64(c.R))
		case 3:
			binary.BigEndian.PutUint64(h[:], 0x0fffffffffffffff+uint64(c.R.Intn(5))-2)
		case 4:
			binary.BigEndian.PutUint64(h[:], c.R.Uint64()>>uint(c.R.Intn(64)))
		}
		var got consensus.Difficulty
		if p := Try(func() { got = consensus.MinimumDifficulty.FromHash(h[:]) }); p != "" {
			c.Viol("difficulty:panic", "difficulty of hash %x: %s", h, p)
			continue
		}
		if want := ref.DiffFromHash(h[:]); uint64(got) != want {
			c.Viol("difficulty:value", "difficulty of hash %x is %d, expected %d", h, got, want)
		}
		if got := consensus.Difficulty(rndU64(c.R)).FromHash(h[:]); uint64(got) != ref.DiffFromHash(h[:]) {
			c.Viol("difficulty:receiver", "difficulty of hash %x depends on the receiver", h)
		}
		c.Eval(string(h[:]))
	}
}

func init() {
	register(&Prop{ID: "C06", Min: 50000,
		Rule: "every edge subset of tiny random graphs; random simple cycles (length 2 to 60) of random graphs and near misses of each (paths, lassos, joint and disjoint cycles, symmetric differences, repeats, disorder, range); real 42-cycles of graphs of 12 to 31 bits and alterations. Verdicts compared with an independent verifier (own SipHash, degree-2 and connectivity test). Distinct by graph and nonce list.",
		Jobs: []Job{{Name: "exhaust", Fn: c06exhaust}, {Name: "cycles", Fn: c06cycles}, {Name: "real", Fn: c06real}}})
	register(&Prop{ID: "C07", Min: 5000,
		Rule:   "header version schedule at all boundaries and random heights; mined headers, each breaking one rule or none, judged by Header.Validate on the real clock and on an exact virtual clock at offsets around the future limit; altered proofs; cycles of lengths other than 42; headers whose proof the verif hook lets count, right or with one field off, alone, on an exact clock and in lists given to a chain. Distinct by header and clock.",
		Assume: []string{"the independent verifier of C06 decides which proofs are valid"},
		Jobs: []Job{{Name: "version", Fn: c07version}, {Name: "rules", Fn: c07rules}, {Name: "proof", Fn: c07proof},
			{Name: "blessed", Fn: c07blessed}, {Name: "clock", Fn: c07clock}, {Name: "lists", Fn: c07lists}}})
	register(&Prop{ID: "C08", Min: 10000,
		Rule: "mined and blessed headers with each transmitted bit (sampled for mined ones in the quick tier), each field, the graph size and each nonce altered, and fields exchanged; identities and difficulties of random proofs and of chosen hash values compared with an independent computation. Distinct by altered bit or value.",
		Jobs: []Job{{Name: "bind", Fn: c08bind}, {Name: "ident", Fn: c08ident}, {Name: "blessed", Fn: c08blessed}}})
}
