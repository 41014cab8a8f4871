// Package simrt is the runtime of the deterministic simulation. Rewritten
// deckard code and the simulated network call it at every point where control
// may pass to another task; a single seeded scheduler decides who runs next.
//
// All tasks of a run live in one testing/synctest bubble, so time is simulated,
// and every goroutine which reaches a yield point parks until the scheduler
// releases it. Exactly one task runs at any moment.
package simrt

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"
	"unsafe"
)

//go:linkname runtimeGetLabel runtime/pprof.runtime_getProfLabel
func runtimeGetLabel() unsafe.Pointer

//go:linkname runtimeSetLabel runtime/pprof.runtime_setProfLabel
func runtimeSetLabel(labels unsafe.Pointer)

// Proc is a simulated process (a deckard node). A killed process' tasks end at
// their next yield point.
type Proc struct {
	Name   string
	Killed bool
	// Skew is added to the process' wall clock.
	Skew time.Duration
	dead chan struct{}
}

// NewProc makes a process of this run.
func (s *Sched) NewProc(name string) *Proc {
	p := &Proc{Name: name, dead: make(chan struct{})}
	s.mu.Lock()
	s.procs = append(s.procs, p)
	s.mu.Unlock()
	return p
}

// Kill crashes the process.
func (p *Proc) Kill() {
	if !p.Killed {
		p.Killed = true
		close(p.dead)
	}
}

// await blocks until ch is closed, or for good if the process dies meanwhile.
func await(ch <-chan struct{}) {
	s, t := cur.Load(), CurrentTask()
	if s == nil || t == nil {
		<-ch
		return
	}
	select {
	case <-ch:
	case <-s.deadOf(t):
		die(t)
	}
}

func (s *Sched) deadOf(t *Task) <-chan struct{} {
	if t.Proc != nil {
		return t.Proc.dead
	}
	return s.dead
}

// Task is one schedulable activity.
type Task struct {
	ID    string
	Proc  *Proc
	Prio  int
	Calls int // external calls made by the operation running in the task
	Op    any // harness data of the operation running in the task
	Env   bool
	kids  int
	done  bool
	// Ended is closed when the task is over, even if it never ran.
	Ended chan struct{}
	// Panic is set if the task ended by a panic.
	Panic    any
	PanicStk string
}

type parked struct {
	t      *Task
	kind   string
	detail string
	key    string // tells goroutines of one task apart which ask the same of different servers
	ch     chan struct{}
	kill   bool
}

// Strategy is how the scheduler chooses among runnable tasks.
type Strategy struct {
	Kind   int // 0 uniform, 1 sticky, 2 priorities with change points
	Sticky float64
	Change int // expected number of steps between priority changes
}

type Sched struct {
	mu      sync.Mutex
	park    []*parked
	wake    chan struct{}
	rng     *Rand
	strat   Strategy
	last    *Task
	prio    map[string]int
	Steps   int
	MaxStep int
	Trace   func(step int, t *Task, kind, detail, waiting string)
	Hash    uint64
	Yields  map[string]int
	tasks   []*Task
	live    int
	killAll bool
	MapMode int // 0 sorted, 1 shuffled
	Panics  []*Task
	Choices int // steps with more than one runnable task
	// PointGap is the mean number of statements between preemptions, 0 for none.
	PointGap int
	pointCtr int
	procs    []*Proc
	dead     chan struct{}
}

var cur atomic.Pointer[Sched]

// Active returns the scheduler of the current run, nil outside runs.
func Active() *Sched { return cur.Load() }

type taskBox struct{ t *Task }

// CurrentTask returns the task of the calling goroutine or of the goroutine which
// (transitively) started it.
//
//go:norace
func CurrentTask() *Task {
	p := runtimeGetLabel()
	if p == nil {
		return nil
	}
	return (*taskBox)(p).t
}

func setTask(t *Task) {
	runtimeSetLabel(unsafe.Pointer(&taskBox{t}))
}

// NewSched makes the scheduler for one run. It must be called inside the bubble.
func NewSched(seed uint64, strat Strategy) *Sched {
	s := &Sched{rng: NewRand(seed), strat: strat, wake: make(chan struct{}, 1), prio: map[string]int{}, Yields: map[string]int{}, MaxStep: 400000, dead: make(chan struct{})}
	if RaceBuild {
		// Growing would look like a race, for the tasks are not ordered.
		s.park, s.tasks = make([]*parked, 0, 1<<14), make([]*Task, 0, 1<<14)
	}
	s.MapMode = s.rng.Intn(2)
	return s
}

// Rand is the run's schedule stream. Use it only from the one running task.
func (s *Sched) Rand() *Rand { return s.rng }

func (s *Sched) Start() { cur.Store(s) }
func (s *Sched) Stop()  { cur.Store(nil) }

func (s *Sched) signal() {
	select {
	case s.wake <- struct{}{}:
	default:
	}
}

type killed struct{}

// Spawn starts a task. It runs only when the scheduler picks it.
func (s *Sched) Spawn(id string, proc *Proc, env bool, f func(t *Task)) *Task {
	t := &Task{ID: id, Proc: proc, Env: env, Ended: make(chan struct{})}
	s.spawn(t, func() { f(t) })
	return t
}

func (s *Sched) spawn(t *Task, f func()) {
	raceDisable()
	s.mu.Lock()
	s.tasks = append(s.tasks, t)
	s.live++
	s.mu.Unlock()
	raceEnable()
	go func() {
		setTask(t)
		defer func() {
			r := recover()
			if r != nil {
				if _, ok := r.(killed); !ok {
					t.Panic = r
					t.PanicStk = string(debug.Stack())
				}
			}
			raceDisable()
			s.mu.Lock()
			t.done = true
			s.live--
			if t.Panic != nil {
				s.Panics = append(s.Panics, t)
			}
			s.mu.Unlock()
			s.signal()
			raceEnable()
			if t.Ended != nil {
				close(t.Ended)
			}
		}()
		s.yield(t, "start", "", "")
		f()
	}()
}

// Done reports whether the task has ended.
func (s *Sched) Done(t *Task) bool { s.mu.Lock(); defer s.mu.Unlock(); return t.done }

// Live is the number of tasks which have not ended.
func (s *Sched) Live() int { s.mu.Lock(); defer s.mu.Unlock(); return s.live }

// Go is what a rewritten go statement calls.
func Go(name string, f func()) {
	s := cur.Load()
	p := CurrentTask()
	if s == nil || p == nil {
		go f()
		return
	}
	p.kids++
	t := &Task{ID: fmt.Sprintf("%s/%s%d", p.ID, name, p.kids), Proc: p.Proc, Op: p.Op}
	s.spawn(t, f)
}

// Ordered tells the race detector that what the calling task did before comes
// before whatever any task does after its next call of Ordered. The harness says
// so around its own bookkeeping, outside the operations of the code under test.
func Ordered() {
	if RaceBuild {
		raceAcquire(unsafe.Pointer(&orderedTok))
		raceReleaseMerge(unsafe.Pointer(&orderedTok))
	}
}

var orderedTok byte

// Yield lets the scheduler run something else.
func Yield(kind, detail string) { YieldKey(kind, detail, "") }

// YieldKey is Yield with a key which orders several goroutines of one task.
func YieldKey(kind, detail, key string) {
	s := cur.Load()
	if s == nil {
		return
	}
	t := CurrentTask()
	if t == nil {
		return
	}
	s.yield(t, kind, detail, key)
}

func (s *Sched) yield(t *Task, kind, detail, key string) {
	raceDisable()
	p := &parked{t: t, kind: kind, detail: detail, key: key, ch: make(chan struct{})}
	s.mu.Lock()
	s.park = append(s.park, p)
	s.mu.Unlock()
	s.signal()
	<-p.ch
	kill := p.kill
	raceEnable()
	if kill {
		die(t)
	}
}

// die ends the calling goroutine as a process crash would: nothing more of it
// runs, except deferred functions, which find every external call failing.
func die(t *Task) {
	runtime.Goexit()
}

// Dead reports whether the calling task belongs to a killed process.
func Dead() bool {
	t := CurrentTask()
	return t != nil && t.Proc != nil && t.Proc.Killed
}

// Step runs one runnable task up to its next yield point. It returns false if
// nothing is runnable.
func (s *Sched) Step() bool {
	for {
		synctest.Wait()
		raceDisable()
		s.mu.Lock()
		// Killed tasks leave first, without being a scheduling decision.
		var dead *parked
		sort.SliceStable(s.park, func(i, j int) bool {
			a, b := s.park[i], s.park[j]
			if a.t.ID != b.t.ID {
				return a.t.ID < b.t.ID
			}
			if a.kind != b.kind {
				return a.kind < b.kind
			}
			if a.detail != b.detail {
				return a.detail < b.detail
			}
			return a.key < b.key
		})
		for i, p := range s.park {
			if s.killAll || (p.t.Proc != nil && p.t.Proc.Killed) {
				dead = p
				s.park = append(s.park[:i], s.park[i+1:]...)
				break
			}
		}
		if dead != nil {
			s.mu.Unlock()
			dead.kill = true
			close(dead.ch)
			raceEnable()
			continue
		}
		n := len(s.park)
		if n == 0 {
			s.mu.Unlock()
			raceEnable()
			return false
		}
		i := s.choose(n)
		p := s.park[i]
		s.park = append(s.park[:i], s.park[i+1:]...)
		s.mu.Unlock()
		s.Steps++
		if n > 1 {
			s.Choices++
			s.Hash = (s.Hash ^ hashString(p.t.ID+"|"+p.kind)) * 1099511628211
		}
		s.Yields[p.kind]++
		if s.Trace != nil {
			s.Trace(s.Steps, p.t, p.kind, p.detail, s.waiting())
		}
		s.last = p.t
		close(p.ch)
		raceEnable()
		return true
	}
}

// waiting lists the tasks which could have run instead.
func (s *Sched) waiting() string {
	s.mu.Lock()
	defer s.mu.Unlock()
	var l []string
	for _, p := range s.park {
		l = append(l, p.t.ID+"|"+p.kind+"|"+p.detail+"|"+p.key)
	}
	return strings.Join(l, " ; ")
}

func (s *Sched) choose(n int) int {
	if n == 1 {
		return 0
	}
	switch s.strat.Kind {
	case 1:
		if s.rng.Float() < s.strat.Sticky {
			for i, p := range s.park {
				if p.t == s.last {
					return i
				}
			}
		}
		return s.rng.Intn(n)
	case 2:
		if s.strat.Change > 0 && s.rng.Intn(s.strat.Change) == 0 && s.last != nil {
			s.prio[s.last.ID] = -s.Steps // demote
		}
		best, bi := 0, -1
		for i, p := range s.park {
			id := p.t.ID
			pr, ok := s.prio[id]
			if !ok {
				pr = 1 + s.rng.Intn(1<<20)
				s.prio[id] = pr
			}
			if bi < 0 || pr > best {
				best, bi = pr, i
			}
		}
		return bi
	}
	return s.rng.Intn(n)
}

// RunUntil steps the simulation until cond holds, time passing as needed. It
// returns false if the system got stuck: the step budget was used up, or nothing
// happened for idle of simulated time.
func (s *Sched) RunUntil(idle time.Duration, cond func() bool) bool {
	for {
		for s.Step() {
			if s.Steps > s.MaxStep {
				return false
			}
		}
		if cond() {
			return true
		}
		tm := time.NewTimer(idle)
		raceDisable()
		ok := true
		select {
		case <-s.wake:
		case <-tm.C:
			ok = false
		}
		raceEnable()
		tm.Stop()
		if !ok {
			synctest.Wait()
			s.mu.Lock()
			n := len(s.park)
			s.mu.Unlock()
			if n == 0 {
				return cond()
			}
		}
	}
}

// KillAll ends every task at its next yield point.
func (s *Sched) KillAll() {
	s.mu.Lock()
	first := !s.killAll
	s.killAll = true
	s.mu.Unlock()
	if first {
		close(s.dead)
		for _, p := range s.procs {
			p.Kill()
		}
	}
}

// Stuck describes the tasks that have not ended.
func (s *Sched) Stuck() string {
	s.mu.Lock()
	defer s.mu.Unlock()
	var b []string
	for _, t := range s.tasks {
		if !t.done {
			b = append(b, t.ID)
		}
	}
	sort.Strings(b)
	return strings.Join(b, ",")
}

// Sleep is simulated sleep followed by a yield.
func Sleep(d time.Duration) {
	SleepKey(d, "")
}

// SleepKey is Sleep with a key which orders several goroutines of one task.
func SleepKey(d time.Duration, key string) {
	time.Sleep(d)
	YieldKey("woke", "", key)
}

func hashString(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

// Hash64 is FNV-1a.
func Hash64(s string) uint64 { return hashString(s) }
