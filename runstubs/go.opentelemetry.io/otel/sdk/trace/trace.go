package trace

import (
	"context"
	"sync/atomic"

	"go.opentelemetry.io/otel/sdk/resource"
	"go.opentelemetry.io/otel/trace"
	"go.opentelemetry.io/otel/trace/noop"
)

// Shutdowns counts provider shutdowns (stub only).
var Shutdowns atomic.Int64

type SpanExporter interface{ Shutdown(context.Context) error }
type TracerProviderOption func()
type BatchSpanProcessorOption func()
type TracerProvider struct{ noop.TracerProvider }

func NewTracerProvider(opts ...TracerProviderOption) *TracerProvider { return &TracerProvider{} }
func WithBatcher(e SpanExporter, o ...BatchSpanProcessorOption) TracerProviderOption {
	return func() {}
}
func WithResource(r *resource.Resource) TracerProviderOption   { return func() {} }
func (p *TracerProvider) Shutdown(ctx context.Context) error   { Shutdowns.Add(1); return nil }
func (p *TracerProvider) ForceFlush(ctx context.Context) error { return nil }

var _ trace.TracerProvider = (*TracerProvider)(nil)
