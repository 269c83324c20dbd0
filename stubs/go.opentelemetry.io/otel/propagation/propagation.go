package propagation

import "context"

type TextMapCarrier interface {
	Get(key string) string
	Set(key string, value string)
	Keys() []string
}
type TextMapPropagator interface {
	Inject(ctx context.Context, carrier TextMapCarrier)
	Extract(ctx context.Context, carrier TextMapCarrier) context.Context
	Fields() []string
}
type TraceContext struct{}
type Baggage struct{}

func (TraceContext) Inject(context.Context, TextMapCarrier)                        {}
func (TraceContext) Extract(ctx context.Context, _ TextMapCarrier) context.Context { return ctx }
func (TraceContext) Fields() []string                                              { return nil }
func (Baggage) Inject(context.Context, TextMapCarrier)                             {}
func (Baggage) Extract(ctx context.Context, _ TextMapCarrier) context.Context      { return ctx }
func (Baggage) Fields() []string                                                   { return nil }

type composite []TextMapPropagator

func (composite) Inject(context.Context, TextMapCarrier)                        {}
func (composite) Extract(ctx context.Context, _ TextMapCarrier) context.Context { return ctx }
func (composite) Fields() []string                                              { return nil }

func NewCompositeTextMapPropagator(p ...TextMapPropagator) TextMapPropagator { return composite(p) }
