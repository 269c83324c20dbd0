package baggage

import "context"

type Member struct{ k, v string }
type Baggage struct{ m []Member }

func FromContext(ctx context.Context) Baggage { return Baggage{} }
func (b Baggage) Members() []Member           { return b.m }
func (b Baggage) Len() int                    { return len(b.m) }
func (m Member) Key() string                  { return m.k }
func (m Member) Value() string                { return m.v }
