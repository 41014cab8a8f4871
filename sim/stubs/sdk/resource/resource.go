package resource

import "go.opentelemetry.io/otel/attribute"

type Resource struct{}

func Environment() *Resource                                             { return &Resource{} }
func Default() *Resource                                                 { return &Resource{} }
func NewWithAttributes(schema string, a ...attribute.KeyValue) *Resource { return &Resource{} }
