package semconv

import "go.opentelemetry.io/otel/attribute"

const SchemaURL = "https://opentelemetry.io/schemas/1.4.0"
const (
	ServiceNameKey    = attribute.Key("service.name")
	ServiceVersionKey = attribute.Key("service.version")
)
