package zzdemo

import (
	"context"
	"fmt"
	"testing"
	"time"

	deckard "github.com/takenet/deckard"
	"github.com/takenet/deckard/internal/audit"
	"github.com/takenet/deckard/internal/config"
	"github.com/takenet/deckard/internal/queue"
	"github.com/takenet/deckard/internal/queue/cache"
	"github.com/takenet/deckard/internal/queue/pool"
	"github.com/takenet/deckard/internal/queue/storage"
	"github.com/takenet/deckard/internal/service"

	"verifsim/demokit"
	"verifsim/simmongo"
	"verifsim/simredis"
)

type ctxT = context.Context
type poolT = pool.PoolType

var ctx ctxT = context.Background()

// Node is one Deckard and what it is connected to.
type Node struct {
	*service.Deckard
	Q     *queue.Queue
	C     cache.Cache
	S     storage.Storage
	CS    queue.QueueConfigurationService
	Redis *simredis.Server
	Mongo *simmongo.Deployment
}

// New makes a node of a cache and a storage, which may be wrapped.
func New(c cache.Cache, s storage.Storage, memory bool) *Node {
	a, err := audit.NewAuditor(nil)
	if err != nil {
		panic(err)
	}
	n := &Node{C: c, S: s}
	n.CS = queue.NewQueueConfigurationService(ctx, s)
	n.Q = queue.NewQueue(a, s, n.CS, c)
	n.Deckard = service.NewDeckardInstance(n.Q, n.CS, memory)
	return n
}

func memory() *Node {
	return New(cache.NewMemoryCache(), storage.NewMemoryStorage(ctx), true)
}

func redisCache(t *testing.T, hook func(string) error) (cache.Cache, *simredis.Server) {
	r, u := demokit.Redis(t, hook)
	config.CacheUri.Set(u)
	c, err := cache.NewRedisCache(ctx)
	if err != nil {
		t.Fatal(err)
	}
	return c, r
}

func clusterCache(t *testing.T, nodes int) (cache.Cache, *simredis.Cluster) {
	r, u := demokit.Cluster(t, nodes)
	config.CacheUri.Set(u)
	config.RedisClusterMode.Set(true)
	c, err := cache.NewRedisCache(ctx)
	if err != nil {
		t.Fatal(err)
	}
	return c, r
}

func mongoStorage(t *testing.T, members int) (storage.Storage, *simmongo.Deployment) {
	d, u := demokit.Mongo(t, members)
	config.StorageUri.Set(u)
	s, err := storage.NewMongoStorage(ctx)
	if err != nil {
		t.Fatal(err)
	}
	return s, d
}

// full is a node with Redis and MongoDB. hook sees every Redis request.
func full(t *testing.T, members int, hook func(string) error) *Node {
	c, r := redisCache(t, hook)
	s, d := mongoStorage(t, members)
	n := New(c, s, false)
	n.Redis, n.Mongo = r, d
	return n
}

func (n *Node) add(t *testing.T, q string, ids ...string) {
	t.Helper()
	var l []*deckard.AddMessage
	for i, id := range ids {
		l = append(l, &deckard.AddMessage{Id: id, Queue: q, Timeless: true, Score: float64(100 + i)})
	}
	if _, err := n.Add(ctx, &deckard.AddRequest{Messages: l}); err != nil {
		t.Fatal(err)
	}
}

func (n *Node) pull(t *testing.T, q string, amount int32) (ids []string) {
	t.Helper()
	r, err := n.Pull(ctx, &deckard.PullRequest{Queue: q, Amount: amount, AckDeadlineMs: 600000})
	if err != nil {
		t.Fatal(err)
	}
	for _, m := range r.Messages {
		ids = append(ids, m.Id)
	}
	return
}

func eq(t *testing.T, what string, got, want any) {
	t.Helper()
	if fmt.Sprint(got) != fmt.Sprint(want) {
		t.Fatalf("%s: got %v, want %v", what, got, want)
	}
}

func nowMs() float64 { return float64(time.Now().UnixMilli()) }

func sleep(ms int) { time.Sleep(time.Duration(ms) * time.Millisecond) }
