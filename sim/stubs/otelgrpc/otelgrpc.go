package otelgrpc

import (
	"context"

	"google.golang.org/grpc/stats"
)

type h struct{}

func (h) TagRPC(ctx context.Context, _ *stats.RPCTagInfo) context.Context   { return ctx }
func (h) HandleRPC(context.Context, stats.RPCStats)                         {}
func (h) TagConn(ctx context.Context, _ *stats.ConnTagInfo) context.Context { return ctx }
func (h) HandleConn(context.Context, stats.ConnStats)                       {}

func NewServerHandler(...any) stats.Handler { return h{} }
func NewClientHandler(...any) stats.Handler { return h{} }
