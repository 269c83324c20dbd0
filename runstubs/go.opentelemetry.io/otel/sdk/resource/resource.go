package resource

import "go.opentelemetry.io/otel/attribute"

type Resource struct{ Attrs []attribute.KeyValue }

func Environment() *Resource { return &Resource{} }
func NewWithAttributes(_ string, kvs ...attribute.KeyValue) *Resource {
	return &Resource{Attrs: kvs}
}
