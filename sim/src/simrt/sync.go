package simrt

import (
	"strconv"
	"sync"
	"unsafe"
)

// lockState is the common part of the simulated locks. Inside a run a waiter
// parks on a channel and competes again when released; the scheduler, not the
// Go runtime, decides who gets the lock.
type lockState struct {
	mu      sync.Mutex
	writer  bool
	owner   *Proc // of the writer
	readers int
	writers int // writers waiting, who keep new readers out
	waiters []chan struct{}
	came    int // how many waited
	world   *Sched
}

// enter forgets what an earlier run left in a lock which outlives it.
func (l *lockState) enter(s *Sched) {
	if s != nil && l.world != s {
		if l.world != nil {
			l.writer, l.owner, l.readers, l.writers, l.waiters, l.came = false, nil, 0, 0, nil, 0
		}
		l.world = s
	}
}

func (l *lockState) acquire(kind string, write bool) {
	s := cur.Load()
	sim := s != nil && CurrentTask() != nil
	if sim {
		Yield(kind, "")
	}
	waiting, blocked := false, false
	for {
		raceDisable()
		l.mu.Lock()
		l.enter(s)
		if l.writer && l.owner != nil && l.owner.Killed && !(sim && s.killAll) {
			// A lock in the memory of a process ends with it.
			l.writer = false
		}
		free := !l.writer && (!write || l.readers == 0)
		if !write && !blocked && l.writers > 0 {
			free = false
		}
		if free {
			if write {
				l.writer, l.owner = true, procOf()
				if waiting {
					l.writers--
				}
			} else {
				l.readers++
			}
			l.mu.Unlock()
			raceEnable()
			return
		}
		if write && !waiting {
			waiting = true
			l.writers++
		}
		// A reader kept out by a writer goes in once that writer is done.
		blocked = blocked || !write && l.writer
		ch := make(chan struct{})
		l.waiters = append(l.waiters, ch)
		l.came++
		came := l.came
		l.mu.Unlock()
		await(ch)
		raceEnable()
		if sim {
			YieldKey(kind, "contended", strconv.Itoa(1000000+came))
		}
	}
}

func procOf() *Proc {
	if t := CurrentTask(); t != nil {
		return t.Proc
	}
	return nil
}

func (l *lockState) try(write bool) bool {
	Yield("trylock", "")
	raceDisable()
	defer raceEnable()
	l.mu.Lock()
	defer l.mu.Unlock()
	l.enter(cur.Load())
	if l.writer || (write && l.readers > 0) {
		return false
	}
	if write {
		l.writer, l.owner = true, procOf()
	} else {
		l.readers++
	}
	return true
}

func (l *lockState) release(write bool) {
	raceDisable()
	l.mu.Lock()
	if write {
		if p := procOf(); p != nil && p.Killed && l.owner != p {
			l.mu.Unlock() // it was taken over
			raceEnable()
			return
		}
		if !l.writer {
			l.mu.Unlock()
			raceEnable()
			panic("simrt: unlock of unlocked mutex")
		}
		l.writer = false
	} else {
		if l.readers == 0 {
			l.mu.Unlock()
			raceEnable()
			panic("simrt: RUnlock of unlocked RWMutex")
		}
		l.readers--
	}
	w := l.waiters
	l.waiters = nil
	l.mu.Unlock()
	for _, c := range w {
		close(c)
	}
	raceEnable()
}

// Mutex replaces sync.Mutex.
type Mutex struct{ l lockState }

func (m *Mutex) Lock() {
	m.l.acquire("lock", true)
	raceAcquire(unsafe.Pointer(m))
}
func (m *Mutex) TryLock() bool {
	if m.l.try(true) {
		raceAcquire(unsafe.Pointer(m))
		return true
	}
	return false
}
func (m *Mutex) Unlock() {
	raceRelease(unsafe.Pointer(m))
	m.l.release(true)
}

// RWMutex replaces sync.RWMutex.
type RWMutex struct {
	l    lockState
	r, w byte
}

func (m *RWMutex) Lock() {
	m.l.acquire("lock", true)
	raceAcquire(unsafe.Pointer(&m.w))
	raceAcquire(unsafe.Pointer(&m.r))
}
func (m *RWMutex) Unlock() {
	raceRelease(unsafe.Pointer(&m.w))
	m.l.release(true)
}
func (m *RWMutex) RLock() {
	m.l.acquire("rlock", false)
	raceAcquire(unsafe.Pointer(&m.w))
}
func (m *RWMutex) RUnlock() {
	raceReleaseMerge(unsafe.Pointer(&m.r))
	m.l.release(false)
}
func (m *RWMutex) TryLock() bool {
	if m.l.try(true) {
		raceAcquire(unsafe.Pointer(&m.w))
		raceAcquire(unsafe.Pointer(&m.r))
		return true
	}
	return false
}
func (m *RWMutex) TryRLock() bool {
	if m.l.try(false) {
		raceAcquire(unsafe.Pointer(&m.w))
		return true
	}
	return false
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() sync.Locker { return (*rlocker)(m) }

// WaitGroup replaces sync.WaitGroup.
type WaitGroup struct {
	mu      sync.Mutex
	n       int
	waiters []chan struct{}
	addr    byte
}

func (w *WaitGroup) Add(d int) {
	if d > 0 {
		Yield("wgadd", "")
	}
	raceReleaseMerge(unsafe.Pointer(&w.addr))
	raceDisable()
	w.mu.Lock()
	w.n += d
	n := w.n
	var ws []chan struct{}
	if n <= 0 {
		ws, w.waiters = w.waiters, nil
	}
	w.mu.Unlock()
	for _, c := range ws {
		close(c)
	}
	raceEnable()
	if n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go("wg", func() {
		defer w.Done()
		f()
	})
}
func (w *WaitGroup) Wait() {
	Yield("wgwait", "")
	raceDisable()
	w.mu.Lock()
	if w.n == 0 {
		w.mu.Unlock()
		raceEnable()
		raceAcquire(unsafe.Pointer(&w.addr))
		return
	}
	c := make(chan struct{})
	w.waiters = append(w.waiters, c)
	w.mu.Unlock()
	await(c)
	raceEnable()
	raceAcquire(unsafe.Pointer(&w.addr))
	Yield("wgwoke", "")
}

// Once replaces sync.Once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// Cond replaces sync.Cond.
type Cond struct {
	L  sync.Locker
	mu sync.Mutex
	w  []chan struct{}
}

func NewCond(l sync.Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	ch := make(chan struct{})
	c.mu.Lock()
	c.w = append(c.w, ch)
	c.mu.Unlock()
	c.L.Unlock()
	await(ch)
	Yield("condwoke", "")
	c.L.Lock()
}
func (c *Cond) Signal() {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.w) > 0 {
		close(c.w[0])
		c.w = c.w[1:]
	}
}
func (c *Cond) Broadcast() {
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, x := range c.w {
		close(x)
	}
	c.w = nil
}
