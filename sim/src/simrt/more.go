package simrt

import (
	"context"
	"fmt"
	"iter"
	"reflect"
	"sort"
	"sync"
	"time"
)

// Now is the wall clock of the calling task's process.
func Now() time.Time {
	n := time.Now()
	if cur.Load() != nil {
		if t := CurrentTask(); t != nil && t.Proc != nil && t.Proc.Skew != 0 {
			return n.Add(t.Proc.Skew)
		}
	}
	return n
}

func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// GoEnv starts a task of the environment, which no process crash ends.
func GoEnv(name string, f func()) {
	s := cur.Load()
	p := CurrentTask()
	if s == nil || p == nil {
		go f()
		return
	}
	p.kids++
	t := &Task{ID: fmt.Sprintf("%s/%s%d", p.ID, name, p.kids), Env: true}
	s.spawn(t, f)
}

// later is a task for a function which is called when something happens.
func later(f func()) func() {
	s, p := cur.Load(), CurrentTask()
	if s == nil || p == nil {
		return f
	}
	p.kids++
	t := &Task{ID: fmt.Sprintf("%s/after%d", p.ID, p.kids), Proc: p.Proc, Op: p.Op}
	n := 0
	return func() {
		n++
		x := *t
		if n > 1 { // the timer was reset
			x.ID += fmt.Sprintf(".%d", n)
		}
		s.spawn(&x, f)
	}
}

// AfterFunc is time.AfterFunc.
func AfterFunc(d time.Duration, f func()) *time.Timer { return time.AfterFunc(d, later(f)) }

// CtxAfterFunc is context.AfterFunc.
func CtxAfterFunc(ctx context.Context, f func()) func() bool {
	return context.AfterFunc(ctx, later(f))
}

// OnceFunc, OnceValue and OnceValues are those of package sync.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var w U
	return func() (T, U) {
		o.Do(func() { v, w = f() })
		return v, w
	}
}

// OnSpan, if set, is told when a maintenance pass begins; it returns what to call
// at the end of it.
var OnSpan func(name string, ctx context.Context) func()

// Span is called at the entry of the maintenance passes.
func Span(name string, ctx context.Context) func() {
	if OnSpan == nil || cur.Load() == nil || CurrentTask() == nil {
		return func() {}
	}
	return OnSpan(name, ctx)
}

// Adopt runs f in the calling goroutine as a task of its own. Servers use it for
// the goroutines their network layer starts.
func Adopt(id string, proc *Proc, op any, f func()) {
	s := cur.Load()
	if s == nil {
		f()
		return
	}
	t := &Task{ID: id, Proc: proc, Op: op}
	s.mu.Lock()
	s.tasks = append(s.tasks, t)
	s.live++
	s.mu.Unlock()
	old := runtimeGetLabel()
	setTask(t)
	defer func() {
		runtimeSetLabel(old)
		s.mu.Lock()
		t.done = true
		s.live--
		s.mu.Unlock()
		s.signal()
	}()
	s.yield(t, "start", "", "")
	f()
}

// GoR is a rewritten go statement: function and arguments are evaluated by the
// caller, as go does.
func GoR(name string, f any, args ...any) {
	fv := reflect.ValueOf(f)
	in := convertArgs(fv.Type(), args, false)
	Go(name, func() { fv.Call(in) })
}

// GoRV is GoR for a call with a trailing "...".
func GoRV(name string, f any, args ...any) {
	fv := reflect.ValueOf(f)
	in := convertArgs(fv.Type(), args, true)
	Go(name, func() { fv.CallSlice(in) })
}

func convertArgs(ft reflect.Type, args []any, slice bool) []reflect.Value {
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		var pt reflect.Type
		if ft.IsVariadic() && i >= ft.NumIn()-1 {
			pt = ft.In(ft.NumIn() - 1)
			if !slice {
				pt = pt.Elem()
			}
		} else {
			pt = ft.In(i)
		}
		if a == nil {
			in[i] = reflect.Zero(pt)
			continue
		}
		v := reflect.ValueOf(a)
		if !v.Type().AssignableTo(pt) && v.Type().ConvertibleTo(pt) {
			v = v.Convert(pt)
		}
		in[i] = v
	}
	return in
}

// ChanRange is a rewritten range over a channel.
func ChanRange[T any](c <-chan T) iter.Seq[T] {
	return func(yield func(T) bool) {
		for {
			v, ok := Recv2(c)
			if !ok || !yield(v) {
				return
			}
		}
	}
}

// Block is an empty select.
func Block() {
	await(make(chan struct{}))
}

// P is a preemption point between two statements. How often it really hands
// control to the scheduler is a parameter of the run.
func P() {
	s := cur.Load()
	if s == nil || s.PointGap == 0 {
		return
	}
	s.pointCtr--
	if s.pointCtr > 0 {
		return
	}
	t := CurrentTask()
	if t == nil {
		s.pointCtr = 1
		return
	}
	s.pointCtr = 1 + s.rng.Intn(2*s.PointGap)
	s.yield(t, "point", "", "")
}

// SyncMap replaces sync.Map.
type SyncMap struct {
	mu sync.Mutex
	m  map[any]any
}

func (s *SyncMap) Load(k any) (any, bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	v, ok := s.m[k]
	return v, ok
}
func (s *SyncMap) Store(k, v any) { s.Swap(k, v) }
func (s *SyncMap) Swap(k, v any) (any, bool) {
	Yield("syncmap", "")
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.m == nil {
		s.m = map[any]any{}
	}
	o, ok := s.m[k]
	s.m[k] = v
	return o, ok
}
func (s *SyncMap) LoadOrStore(k, v any) (any, bool) {
	Yield("syncmap", "")
	s.mu.Lock()
	defer s.mu.Unlock()
	if o, ok := s.m[k]; ok {
		return o, true
	}
	if s.m == nil {
		s.m = map[any]any{}
	}
	s.m[k] = v
	return v, false
}
func (s *SyncMap) LoadAndDelete(k any) (any, bool) {
	Yield("syncmap", "")
	s.mu.Lock()
	defer s.mu.Unlock()
	o, ok := s.m[k]
	delete(s.m, k)
	return o, ok
}
func (s *SyncMap) Delete(k any) { s.LoadAndDelete(k) }
func (s *SyncMap) CompareAndSwap(k, o, n any) bool {
	Yield("syncmap", "")
	s.mu.Lock()
	defer s.mu.Unlock()
	if v, ok := s.m[k]; ok && v == o {
		s.m[k] = n
		return true
	}
	return false
}
func (s *SyncMap) CompareAndDelete(k, o any) bool {
	Yield("syncmap", "")
	s.mu.Lock()
	defer s.mu.Unlock()
	if v, ok := s.m[k]; ok && v == o {
		delete(s.m, k)
		return true
	}
	return false
}
func (s *SyncMap) Range(f func(k, v any) bool) {
	s.mu.Lock()
	type kv struct {
		k, v any
		s    string
	}
	var l []kv
	for k, v := range s.m {
		l = append(l, kv{k, v, keyString(k)})
	}
	s.mu.Unlock()
	sort.Slice(l, func(i, j int) bool { return l[i].s < l[j].s })
	for _, e := range l {
		if !f(e.k, e.v) {
			return
		}
	}
}
func (s *SyncMap) Clear() {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.m = nil
}
