// Package otel is an offline stand-in for go.opentelemetry.io/otel.
package otel

import (
	"go.opentelemetry.io/otel/metric"
	"go.opentelemetry.io/otel/propagation"
	"go.opentelemetry.io/otel/trace"
)

var (
	mp metric.MeterProvider          = metric.NewRecorder()
	tp trace.TracerProvider          = trace.NewNoopTracerProvider()
	pr propagation.TextMapPropagator = propagation.TraceContext{}
)

func SetMeterProvider(p metric.MeterProvider)                  { mp = p }
func GetMeterProvider() metric.MeterProvider                   { return mp }
func SetTracerProvider(p trace.TracerProvider)                 { tp = p }
func GetTracerProvider() trace.TracerProvider                  { return tp }
func SetTextMapPropagator(p propagation.TextMapPropagator)     { pr = p }
func GetTextMapPropagator() propagation.TextMapPropagator      { return pr }
func Tracer(name string, _ ...trace.TracerOption) trace.Tracer { return tp.Tracer(name) }
func Meter(name string, _ ...metric.MeterOption) metric.Meter  { return mp.Meter(name) }
func Handle(err error)                                         {}
