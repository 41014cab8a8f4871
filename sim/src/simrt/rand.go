package simrt

import (
	mrand "math/rand"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	_ "unsafe" // for linkname
)

// Rand is a splitmix64 generator: small, seedable and identical everywhere.
type Rand struct{ s uint64 }

// NewRand mixes the seed first: neighbouring seeds must not give shifted copies of
// one sequence.
func NewRand(seed uint64) *Rand { return &Rand{mix(mix(seed+0x1234567) ^ 0xD1B54A32D192ED03)} }

func mix(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

func (r *Rand) Uint64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	return mix(r.s)
}
func (r *Rand) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.Uint64() % uint64(n))
}
func (r *Rand) Float() float64      { return float64(r.Uint64()>>11) / (1 << 53) }
func (r *Rand) Bool(p float64) bool { return r.Float() < p }
func (r *Rand) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

//go:linkname globalRand math/rand.globalRandGenerator
var globalRand atomic.Pointer[mrand.Rand]

// SeedGlobal makes the package-level functions of math/rand deterministic: every
// task draws its own sequence at every place of the code, whatever the order in which
// tasks, and the goroutines libraries start for one task, draw.
func SeedGlobal(seed uint64) {
	globalRand.Store(mrand.New(&globalSource{seed: seed, gens: map[string]*Rand{}}))
}

type globalSource struct {
	mu   sync.Mutex
	seed uint64
	gens map[string]*Rand
}

//go:norace
func (g *globalSource) Uint64() uint64 {
	id := ""
	if t := CurrentTask(); t != nil {
		id = t.ID
	}
	id += drawer()
	raceDisable()
	g.mu.Lock()
	r := g.gens[id]
	if r == nil {
		r = NewRand(g.seed ^ hashString(id))
		g.gens[id] = r
	}
	x := r.Uint64()
	g.mu.Unlock()
	raceEnable()
	return x
}

// drawer is the place in the code which asked math/rand for a number.
//
//go:norace
func drawer() string {
	var pcs [12]uintptr
	fs := runtime.CallersFrames(pcs[:runtime.Callers(3, pcs[:])])
	for {
		f, more := fs.Next()
		if !strings.HasPrefix(f.Function, "math/rand.") && !strings.Contains(f.Function, "globalSource") {
			return "@" + f.Function + ":" + strconv.Itoa(f.Line)
		}
		if !more {
			return ""
		}
	}
}

func (g *globalSource) Int63() int64 { return int64(g.Uint64() >> 1) }
func (g *globalSource) Seed(int64)   {}
