package metric

import (
	"go.opentelemetry.io/otel/metric/noop"
	"go.opentelemetry.io/otel/sdk/resource"
)

type InstrumentKind uint8

const (
	instrumentKindUndefined InstrumentKind = iota
	InstrumentKindCounter
	InstrumentKindUpDownCounter
	InstrumentKindHistogram
	InstrumentKindObservableCounter
	InstrumentKindObservableUpDownCounter
	InstrumentKindObservableGauge
	InstrumentKindGauge
)

type Aggregation interface{}
type AggregationDefault struct{}
type AggregationExplicitBucketHistogram struct {
	Boundaries []float64
	NoMinMax   bool
}
type AggregationSelector func(InstrumentKind) Aggregation
type Reader interface{ Selector() AggregationSelector }
type Option func(*MeterProvider)
type MeterProvider struct{ noop.MeterProvider }

func DefaultAggregationSelector(InstrumentKind) Aggregation { return AggregationDefault{} }

// HistogramAggregation records the aggregation the reader chose (stub only).
var HistogramAggregation func() Aggregation

func WithReader(r Reader) Option {
	return func(*MeterProvider) {
		if s := r.Selector(); s != nil {
			HistogramAggregation = func() Aggregation { return s(InstrumentKindHistogram) }
		}
	}
}
func WithResource(*resource.Resource) Option { return func(*MeterProvider) {} }
func NewMeterProvider(opts ...Option) *MeterProvider {
	m := &MeterProvider{}
	for _, o := range opts {
		o(m)
	}
	return m
}
