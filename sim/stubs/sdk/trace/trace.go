package trace

import (
	"context"

	"go.opentelemetry.io/otel/sdk/resource"
	"go.opentelemetry.io/otel/trace"
)

type SpanExporter interface {
	Shutdown(ctx context.Context) error
}
type TracerProviderOption any
type TracerProvider struct{ trace.TracerProvider }

func NewTracerProvider(o ...TracerProviderOption) *TracerProvider {
	return &TracerProvider{trace.NewNoopTracerProvider()}
}
func (*TracerProvider) Shutdown(context.Context) error          { return nil }
func WithBatcher(e SpanExporter, o ...any) TracerProviderOption { return nil }
func WithResource(r *resource.Resource) TracerProviderOption    { return nil }
