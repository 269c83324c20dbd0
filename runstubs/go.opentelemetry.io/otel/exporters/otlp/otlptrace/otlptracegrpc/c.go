package otlptracegrpc

import (
	"context"

	"go.opentelemetry.io/otel/exporters/otlp/otlptrace"
)

type Option func()
type cl struct{}

func (cl) Stop(context.Context) error        { return nil }
func NewClient(o ...Option) otlptrace.Client { return cl{} }
