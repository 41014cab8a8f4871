package redisotel

import "github.com/redis/go-redis/v9"

func InstrumentTracing(redis.UniversalClient, ...any) error { return nil }
func InstrumentMetrics(redis.UniversalClient, ...any) error { return nil }
