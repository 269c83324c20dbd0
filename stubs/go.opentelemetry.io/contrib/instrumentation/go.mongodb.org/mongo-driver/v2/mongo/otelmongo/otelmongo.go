package otelmongo

import "go.mongodb.org/mongo-driver/v2/event"

type Option func()

func NewMonitor(opts ...Option) *event.CommandMonitor { return &event.CommandMonitor{} }
