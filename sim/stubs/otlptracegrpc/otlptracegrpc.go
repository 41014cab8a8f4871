package otlptracegrpc

import "go.opentelemetry.io/otel/exporters/otlp/otlptrace"

func NewClient(...any) otlptrace.Client { return nil }
