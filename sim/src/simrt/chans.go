package simrt

import (
	"fmt"
	"iter"
	"reflect"
	"sort"
)

// Case is one clause of a rewritten select statement.
type Case interface {
	rc() reflect.SelectCase
	set(v reflect.Value, ok bool)
}

type RecvCase[T any] struct {
	c  <-chan T
	V  T
	OK bool
}

func (r *RecvCase[T]) rc() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(r.c)}
}
func (r *RecvCase[T]) set(v reflect.Value, ok bool) {
	r.OK = ok
	if ok {
		reflect.ValueOf(&r.V).Elem().Set(v)
	}
}

// R is a receive clause.
func R[T any](c <-chan T) *RecvCase[T] { return &RecvCase[T]{c: c} }

type SendCase[T any] struct {
	c chan<- T
	v T
}

func (r *SendCase[T]) rc() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectSend, Chan: reflect.ValueOf(r.c), Send: reflect.ValueOf(&r.v).Elem()}
}
func (r *SendCase[T]) set(reflect.Value, bool) {}

// SC is a send clause: SC(c)(v).
func SC[T any](c chan<- T) func(v T) *SendCase[T] {
	return func(v T) *SendCase[T] { return &SendCase[T]{c, v} }
}

// Select performs a select whose choice among ready clauses is the scheduler's.
// It returns the clause's index, -1 for default.
func Select(hasDefault bool, cases ...Case) int {
	n := len(cases)
	s := cur.Load()
	sim := s != nil && CurrentTask() != nil
	if sim {
		Yield("select", "")
	}
	rcs := make([]reflect.SelectCase, n, n+1)
	for i, c := range cases {
		rcs[i] = c.rc()
	}
	order := make([]int, n)
	for i := range order {
		order[i] = i
	}
	if sim {
		order = s.rng.Perm(n)
	}
	for _, i := range order {
		j, v, ok := reflect.Select([]reflect.SelectCase{rcs[i], {Dir: reflect.SelectDefault}})
		if j == 0 {
			cases[i].set(v, ok)
			return i
		}
	}
	if hasDefault {
		return -1
	}
	if sim {
		rcs = append(rcs, reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(s.deadOf(CurrentTask()))})
	}
	i, v, ok := reflect.Select(rcs)
	if sim {
		if i == n {
			die(CurrentTask())
		}
		Yield("selected", "")
	}
	cases[i].set(v, ok)
	return i
}

// Recv1 and Recv2 are rewritten receive expressions.
func Recv1[T any](c <-chan T) T {
	v, _ := Recv2(c)
	return v
}
func Recv2[T any](c <-chan T) (T, bool) {
	Yield("recv", "")
	select {
	case v, ok := <-c:
		return v, ok
	default:
	}
	if s, t := cur.Load(), CurrentTask(); s != nil && t != nil {
		select {
		case v, ok := <-c:
			Yield("recvd", "")
			return v, ok
		case <-s.deadOf(t):
			die(t)
		}
	}
	v, ok := <-c
	return v, ok
}

// Snd is a rewritten send statement: Snd(c)(v).
func Snd[T any](c chan<- T) func(T) {
	return func(v T) {
		Yield("send", "")
		select {
		case c <- v:
			return
		default:
		}
		if s, t := cur.Load(), CurrentTask(); s != nil && t != nil {
			select {
			case c <- v:
				Yield("sent", "")
				return
			case <-s.deadOf(t):
				die(t)
			}
		}
		c <- v
	}
}

func keyString(k any) string {
	if s, ok := k.(string); ok {
		return s
	}
	return fmt.Sprint(k)
}

// fork makes a generator of its own.
//
//go:noinline
//go:norace
func (s *Sched) fork() *Rand { return NewRand(s.rng.Uint64()) }

// MapRange iterates over a map in an order that the run's seed decides.
func MapRange[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		s := cur.Load()
		if s == nil || len(m) == 0 {
			for k, v := range m {
				if !yield(k, v) {
					return
				}
			}
			return
		}
		type ks struct {
			k K
			s string
		}
		keys := make([]ks, 0, len(m))
		for k := range m {
			keys = append(keys, ks{k, keyString(k)})
		}
		sort.Slice(keys, func(i, j int) bool { return keys[i].s < keys[j].s })
		if s.MapMode == 1 && CurrentTask() != nil {
			r := s.fork()
			for i := len(keys) - 1; i > 0; i-- {
				j := r.Intn(i + 1)
				keys[i], keys[j] = keys[j], keys[i]
			}
		}
		for _, k := range keys {
			v, ok := m[k.k]
			if !ok {
				continue
			}
			if !yield(k.k, v) {
				return
			}
		}
	}
}
