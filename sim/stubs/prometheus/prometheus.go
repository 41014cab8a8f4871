package prometheus

import sdk "go.opentelemetry.io/otel/sdk/metric"

type Option any
type Exporter struct{}

func New(...Option) (*Exporter, error)                       { return &Exporter{}, nil }
func WithRegisterer(any) Option                              { return nil }
func WithoutUnits() Option                                   { return nil }
func WithoutScopeInfo() Option                               { return nil }
func WithAggregationSelector(sdk.AggregationSelector) Option { return nil }
