// Package otel is a minimal offline stand-in for go.opentelemetry.io/otel.
package otel

import (
	"go.opentelemetry.io/otel/metric"
	mnoop "go.opentelemetry.io/otel/metric/noop"
	"go.opentelemetry.io/otel/propagation"
	"go.opentelemetry.io/otel/trace"
	tnoop "go.opentelemetry.io/otel/trace/noop"
)

var (
	mp metric.MeterProvider          = mnoop.NewMeterProvider()
	tp trace.TracerProvider          = tnoop.NewTracerProvider()
	pr propagation.TextMapPropagator = propagation.NewCompositeTextMapPropagator()
)

type ErrorHandler interface{ Handle(error) }

func SetMeterProvider(m metric.MeterProvider)               { mp = m }
func GetMeterProvider() metric.MeterProvider                { return mp }
func SetTracerProvider(t trace.TracerProvider)              { tp = t }
func GetTracerProvider() trace.TracerProvider               { return tp }
func SetTextMapPropagator(p propagation.TextMapPropagator)  { pr = p }
func GetTextMapPropagator() propagation.TextMapPropagator   { return pr }
func Meter(n string, o ...metric.MeterOption) metric.Meter  { return mp.Meter(n, o...) }
func Tracer(n string, o ...trace.TracerOption) trace.Tracer { return tp.Tracer(n, o...) }
func SetErrorHandler(ErrorHandler)                          {}
func Handle(error)                                          {}
