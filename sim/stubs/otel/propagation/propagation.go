package propagation

import "context"

type TextMapCarrier interface {
	Get(key string) string
	Set(key string, value string)
	Keys() []string
}
type TextMapPropagator interface {
	Inject(ctx context.Context, carrier TextMapCarrier)
	Extract(ctx context.Context, carrier TextMapCarrier) context.Context
	Fields() []string
}
type noop struct{}

func (noop) Inject(context.Context, TextMapCarrier)                        {}
func (noop) Extract(ctx context.Context, _ TextMapCarrier) context.Context { return ctx }
func (noop) Fields() []string                                              { return nil }

type TraceContext struct{ noop }
type Baggage struct{ noop }

func NewCompositeTextMapPropagator(p ...TextMapPropagator) TextMapPropagator { return noop{} }
