// Package metric is an offline stand-in for go.opentelemetry.io/otel/metric that
// records counters so that a simulation can read them.
package metric

import (
	"context"
	"sort"
	"sync"

	"go.opentelemetry.io/otel/attribute"
)

type MeterOption interface{}
type MeterProvider interface {
	Meter(name string, opts ...MeterOption) Meter
}
type Meter interface {
	Int64Counter(name string, options ...Int64CounterOption) (Int64Counter, error)
	Int64UpDownCounter(name string, options ...any) (Int64UpDownCounter, error)
	Int64Histogram(name string, options ...Int64HistogramOption) (Int64Histogram, error)
	Int64Gauge(name string, options ...any) (Int64Gauge, error)
	Int64ObservableGauge(name string, options ...Int64ObservableGaugeOption) (Int64ObservableGauge, error)
	Int64ObservableCounter(name string, options ...any) (Int64ObservableGauge, error)
	Float64Counter(name string, options ...any) (Float64Counter, error)
	Float64Histogram(name string, options ...any) (Float64Histogram, error)
}

type Option any
type Int64CounterOption any
type Int64HistogramOption any
type Int64ObservableGaugeOption any
type InstrumentOption any
type AddOption any
type RecordOption any
type ObserveOption any
type MeasurementOption any

type attrs struct{ set attribute.Set }
type desc string
type unit string
type Int64Callback func(context.Context, Int64Observer) error
type Int64Observer interface {
	Observe(value int64, options ...ObserveOption)
}

func WithAttributes(a ...attribute.KeyValue) MeasurementOption { return attrs{attribute.NewSet(a...)} }
func WithAttributeSet(s attribute.Set) MeasurementOption       { return attrs{s} }
func WithDescription(d string) InstrumentOption                { return desc(d) }
func WithUnit(u string) InstrumentOption                       { return unit(u) }
func WithInt64Callback(cb Int64Callback) Option                { return cb }
func WithExplicitBucketBoundaries(b ...float64) Option         { return nil }

type Int64Counter interface {
	Add(ctx context.Context, incr int64, options ...AddOption)
}
type Int64UpDownCounter interface{ Int64Counter }
type Int64Histogram interface {
	Record(ctx context.Context, incr int64, options ...RecordOption)
}
type Int64Gauge interface{ Int64Histogram }
type Float64Counter interface {
	Add(ctx context.Context, incr float64, options ...AddOption)
}
type Float64Histogram interface {
	Record(ctx context.Context, incr float64, options ...RecordOption)
}
type Int64ObservableGauge interface{ Int64Observable() }

// Recorder is a MeterProvider which remembers counter totals and gauge callbacks.
type Recorder struct {
	mu       sync.Mutex
	counters map[string]int64
	gauges   map[string]Int64Callback
}

var Default = &Recorder{counters: map[string]int64{}, gauges: map[string]Int64Callback{}}

func NewRecorder() *Recorder { return Default }

func (r *Recorder) Meter(string, ...MeterOption) Meter { return meter{r} }

// Snapshot returns the value of every counter, keyed name{attributes}.
func (r *Recorder) Snapshot() map[string]int64 {
	r.mu.Lock()
	defer r.mu.Unlock()
	m := make(map[string]int64, len(r.counters))
	for k, v := range r.counters {
		m[k] = v
	}
	return m
}

// Reset zeroes every counter.
func (r *Recorder) Reset() {
	r.mu.Lock()
	r.counters = map[string]int64{}
	r.mu.Unlock()
}

type obs struct{ m map[string]int64 }

func (o obs) Observe(v int64, options ...ObserveOption) { o.m[key("", conv(options))] = v }

// Gauges runs every observable gauge's callback.
func (r *Recorder) Gauges() map[string]map[string]int64 {
	r.mu.Lock()
	names := make([]string, 0)
	for n := range r.gauges {
		names = append(names, n)
	}
	r.mu.Unlock()
	sort.Strings(names)
	out := map[string]map[string]int64{}
	for _, n := range names {
		o := obs{map[string]int64{}}
		_ = r.gauges[n](context.Background(), o)
		out[n] = o.m
	}
	return out
}

func key(name string, options []any) string {
	for _, o := range options {
		if a, ok := o.(attrs); ok {
			return name + "{" + a.set.Encode() + "}"
		}
	}
	return name + "{}"
}

type meter struct{ r *Recorder }
type counter struct {
	r *Recorder
	n string
}

func (c counter) Add(_ context.Context, incr int64, options ...AddOption) {
	if raceBuild {
		return // its lock would order the tasks for the race detector
	}
	k := key(c.n, conv(options))
	c.r.mu.Lock()
	c.r.counters[k] += incr
	c.r.mu.Unlock()
}
func conv[T any](in []T) []any {
	out := make([]any, len(in))
	for i := range in {
		out[i] = in[i]
	}
	return out
}

type nop struct{}

func (nop) Record(context.Context, int64, ...RecordOption) {}
func (nop) Int64Observable()                               {}

type nopf struct{}

func (nopf) Record(context.Context, float64, ...RecordOption) {}
func (nopf) Add(context.Context, float64, ...AddOption)       {}

func (m meter) Int64Counter(n string, _ ...Int64CounterOption) (Int64Counter, error) {
	return counter{m.r, n}, nil
}
func (m meter) Int64UpDownCounter(n string, _ ...any) (Int64UpDownCounter, error) {
	return counter{m.r, n}, nil
}
func (m meter) Int64Histogram(string, ...Int64HistogramOption) (Int64Histogram, error) {
	return nop{}, nil
}
func (m meter) Int64Gauge(string, ...any) (Int64Gauge, error) { return nop{}, nil }
func (m meter) Int64ObservableGauge(n string, options ...Int64ObservableGaugeOption) (Int64ObservableGauge, error) {
	for _, o := range options {
		if cb, ok := o.(Int64Callback); ok {
			m.r.mu.Lock()
			m.r.gauges[n] = cb
			m.r.mu.Unlock()
		}
	}
	return nop{}, nil
}
func (m meter) Int64ObservableCounter(n string, options ...any) (Int64ObservableGauge, error) {
	return nop{}, nil
}
func (m meter) Float64Counter(string, ...any) (Float64Counter, error)     { return nopf{}, nil }
func (m meter) Float64Histogram(string, ...any) (Float64Histogram, error) { return nopf{}, nil }
