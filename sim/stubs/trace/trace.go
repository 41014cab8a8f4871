// Package trace is an offline stand-in for go.opentelemetry.io/otel/trace.
package trace

import (
	"context"
	"encoding/hex"

	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/codes"
)

type TraceID [16]byte
type SpanID [8]byte
type TraceFlags byte

func (t TraceID) String() string    { return hex.EncodeToString(t[:]) }
func (t TraceID) IsValid() bool     { return t != TraceID{} }
func (t SpanID) String() string     { return hex.EncodeToString(t[:]) }
func (t SpanID) IsValid() bool      { return t != SpanID{} }
func (t TraceFlags) String() string { return hex.EncodeToString([]byte{byte(t)}) }

type SpanContext struct {
	t TraceID
	s SpanID
	f TraceFlags
}
type SpanContextConfig struct {
	TraceID    TraceID
	SpanID     SpanID
	TraceFlags TraceFlags
}

func NewSpanContext(c SpanContextConfig) SpanContext {
	return SpanContext{c.TraceID, c.SpanID, c.TraceFlags}
}
func (s SpanContext) HasTraceID() bool       { return s.t.IsValid() }
func (s SpanContext) HasSpanID() bool        { return s.s.IsValid() }
func (s SpanContext) IsValid() bool          { return s.HasSpanID() && s.HasTraceID() }
func (s SpanContext) TraceID() TraceID       { return s.t }
func (s SpanContext) SpanID() SpanID         { return s.s }
func (s SpanContext) TraceFlags() TraceFlags { return s.f }
func (s SpanContext) IsSampled() bool        { return s.f&1 == 1 }

type SpanEndOption any
type EventOption any
type SpanStartOption any
type TracerOption any
type Span interface {
	End(options ...SpanEndOption)
	AddEvent(name string, options ...EventOption)
	IsRecording() bool
	RecordError(err error, options ...EventOption)
	SpanContext() SpanContext
	SetStatus(code codes.Code, description string)
	SetName(name string)
	SetAttributes(kv ...attribute.KeyValue)
}
type Tracer interface {
	Start(ctx context.Context, spanName string, opts ...SpanStartOption) (context.Context, Span)
}
type TracerProvider interface {
	Tracer(name string, options ...TracerOption) Tracer
}
type spanKey struct{}
type noopSpan struct{ sc SpanContext }

func (noopSpan) End(...SpanEndOption)                {}
func (noopSpan) AddEvent(string, ...EventOption)     {}
func (noopSpan) IsRecording() bool                   { return false }
func (noopSpan) RecordError(error, ...EventOption)   {}
func (s noopSpan) SpanContext() SpanContext          { return s.sc }
func (noopSpan) SetStatus(codes.Code, string)        {}
func (noopSpan) SetName(string)                      {}
func (noopSpan) SetAttributes(...attribute.KeyValue) {}

func ContextWithSpan(ctx context.Context, s Span) context.Context {
	return context.WithValue(ctx, spanKey{}, s)
}
func ContextWithSpanContext(ctx context.Context, sc SpanContext) context.Context {
	return ContextWithSpan(ctx, noopSpan{sc})
}
func SpanFromContext(ctx context.Context) Span {
	if ctx != nil {
		if s, ok := ctx.Value(spanKey{}).(Span); ok {
			return s
		}
	}
	return noopSpan{}
}
func SpanContextFromContext(ctx context.Context) SpanContext {
	return SpanFromContext(ctx).SpanContext()
}

type noopTP struct{}
type noopTracer struct{}

func (noopTP) Tracer(string, ...TracerOption) Tracer { return noopTracer{} }
func (noopTracer) Start(ctx context.Context, _ string, _ ...SpanStartOption) (context.Context, Span) {
	return ctx, noopSpan{}
}
func NewNoopTracerProvider() TracerProvider { return noopTP{} }
