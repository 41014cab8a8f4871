module go.opentelemetry.io/otel/trace

go 1.24
