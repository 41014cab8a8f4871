package metric

import (
	"go.opentelemetry.io/otel/metric"
	"go.opentelemetry.io/otel/sdk/resource"
)

type InstrumentKind uint8

const (
	InstrumentKindCounter InstrumentKind = 1 + iota
	InstrumentKindUpDownCounter
	InstrumentKindHistogram
	InstrumentKindObservableCounter
	InstrumentKindObservableUpDownCounter
	InstrumentKindObservableGauge
	InstrumentKindGauge
)

type Aggregation interface{}
type AggregationExplicitBucketHistogram struct {
	Boundaries []float64
	NoMinMax   bool
}
type AggregationSelector func(InstrumentKind) Aggregation

func DefaultAggregationSelector(InstrumentKind) Aggregation { return nil }

type Reader interface{}
type Option any
type MeterProvider struct{ *metric.Recorder }

func NewMeterProvider(...Option) *MeterProvider { return &MeterProvider{metric.NewRecorder()} }
func WithReader(Reader) Option                  { return nil }
func WithResource(*resource.Resource) Option    { return nil }
