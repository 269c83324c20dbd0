package prometheus

import (
	prom "github.com/prometheus/client_golang/prometheus"
	"go.opentelemetry.io/otel/sdk/metric"
)

type Exporter struct{ sel metric.AggregationSelector }

func (e *Exporter) Selector() metric.AggregationSelector { return e.sel }

type Option func(*Exporter)

func WithRegisterer(prom.Registerer) Option { return func(*Exporter) {} }
func WithoutUnits() Option                  { return func(*Exporter) {} }
func WithAggregationSelector(s metric.AggregationSelector) Option {
	return func(e *Exporter) { e.sel = s }
}
func New(opts ...Option) (*Exporter, error) {
	e := &Exporter{}
	for _, o := range opts {
		o(e)
	}
	return e, nil
}
