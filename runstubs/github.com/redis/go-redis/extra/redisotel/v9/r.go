package redisotel

import "github.com/redis/go-redis/v9"

type TracingOption interface{}

func InstrumentTracing(rdb redis.UniversalClient, opts ...TracingOption) error { return nil }
