// Package demokit lets a demonstration run real deckard code against small stand-ins
// for Redis and MongoDB, listening on the loopback network.
package demokit

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"strings"
	"sync"
	"testing"
	"time"

	"go.mongodb.org/mongo-driver/v2/bson"

	"verifsim/simmongo"
	"verifsim/simredis"
)

// Lock guards every stand-in: take it to change one while clients are connected.
var Lock sync.Mutex

func listen(t *testing.T) net.Listener {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	t.Cleanup(func() { l.Close() })
	return l
}

// Redis starts an empty Redis and returns its URI. hook, if given, is called with
// every request before it is executed; an error drops the connection.
func Redis(t *testing.T, hook func(req string) error) (*simredis.Server, string) {
	l := listen(t)
	s := simredis.NewServer(l.Addr().String())
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go serveRedis(s, c, hook)
		}
	}()
	return s, "redis://" + l.Addr().String()
}

// Cluster starts an empty Redis cluster of n nodes and returns its URI.
func Cluster(t *testing.T, n int) (*simredis.Cluster, string) {
	var ls []net.Listener
	var addrs []string
	for i := 0; i < n; i++ {
		l := listen(t)
		ls, addrs = append(ls, l), append(addrs, l.Addr().String())
	}
	c := simredis.NewCluster(addrs...)
	for i, l := range ls {
		go func() {
			for {
				x, err := l.Accept()
				if err != nil {
					return
				}
				go serveRedis(c.Nodes[i], x, nil)
			}
		}()
	}
	return c, "redis://" + addrs[0] + "?addr=" + strings.Join(addrs[1:], "&addr=")
}

// readRESP reads one request, an array of bulk strings.
func readRESP(r *bufio.Reader) (raw []byte, words []string, err error) {
	line := func() (string, error) {
		b, err := r.ReadBytes('\n')
		raw = append(raw, b...)
		return strings.TrimSpace(string(b)), err
	}
	h, err := line()
	if err != nil {
		return nil, nil, err
	}
	var n int
	fmt.Sscanf(h, "*%d", &n)
	for i := 0; i < n; i++ {
		h, err := line()
		if err != nil {
			return nil, nil, err
		}
		var k int
		fmt.Sscanf(h, "$%d", &k)
		b := make([]byte, k+2)
		if _, err := io.ReadFull(r, b); err != nil {
			return nil, nil, err
		}
		raw = append(raw, b...)
		words = append(words, string(b[:k]))
	}
	return raw, words, nil
}

func serveRedis(s *simredis.Server, c net.Conn, hook func(string) error) {
	defer c.Close()
	r := bufio.NewReader(c)
	x, err := simredis.Dial(s)
	if err != nil {
		return
	}
	buf := make([]byte, 1<<20)
	for {
		raw, words, err := readRESP(r)
		if err != nil {
			return
		}
		if hook != nil {
			if hook(strings.Join(words, " ")) != nil {
				return
			}
		}
		Lock.Lock()
		x.Write(raw)
		n, err := x.Read(buf)
		out := bytes.Clone(buf[:n])
		for err == nil && n == len(buf) {
			n, err = x.Read(buf)
			out = append(out, buf[:n]...)
		}
		Lock.Unlock()
		if err != nil {
			return
		}
		if _, err := c.Write(out); err != nil {
			return
		}
	}
}

// Mongo starts an empty MongoDB with n members, of which the first is the primary, and
// returns its URI.
func Mongo(t *testing.T, n int) (*simmongo.Deployment, string) {
	var ls []net.Listener
	var addrs []string
	for i := 0; i < n; i++ {
		l := listen(t)
		ls = append(ls, l)
		addrs = append(addrs, l.Addr().String())
	}
	d := simmongo.New(addrs...)
	d.Standalone = n == 1
	for i, l := range ls {
		go func() {
			for {
				c, err := l.Accept()
				if err != nil {
					return
				}
				go serveMongo(d, i, addrs, c)
			}
		}()
	}
	uri := "mongodb://" + strings.Join(addrs, ",") + "/unit_test"
	if n > 1 {
		uri += "?replicaSet=rs0"
	}
	return d, uri
}

func hello(d *simmongo.Deployment, i int, addrs []string) bson.D {
	h := bson.D{{Key: "ok", Value: 1.0}, {Key: "helloOk", Value: true}, {Key: "minWireVersion", Value: int32(0)}, {Key: "maxWireVersion", Value: int32(25)}, {Key: "maxBsonObjectSize", Value: int32(16777216)}, {Key: "maxMessageSizeBytes", Value: int32(48000000)}, {Key: "maxWriteBatchSize", Value: int32(100000)}, {Key: "logicalSessionTimeoutMinutes", Value: int32(30)}, {Key: "localTime", Value: time.Now()}}
	if d.Standalone {
		return append(h, bson.E{Key: "ismaster", Value: true}, bson.E{Key: "isWritablePrimary", Value: true})
	}
	p := d.Primary == i
	return append(h, bson.E{Key: "ismaster", Value: p}, bson.E{Key: "isWritablePrimary", Value: p}, bson.E{Key: "secondary", Value: !p}, bson.E{Key: "setName", Value: "rs0"}, bson.E{Key: "hosts", Value: addrs}, bson.E{Key: "primary", Value: addrs[d.Primary]}, bson.E{Key: "me", Value: addrs[i]})
}

func serveMongo(d *simmongo.Deployment, i int, addrs []string, c net.Conn) {
	defer c.Close()
	r := bufio.NewReader(c)
	for {
		var hd [16]byte
		if _, err := io.ReadFull(r, hd[:]); err != nil {
			return
		}
		l := binary.LittleEndian.Uint32(hd[:])
		wm := make([]byte, l)
		copy(wm, hd[:])
		if _, err := io.ReadFull(r, wm[16:]); err != nil {
			return
		}
		id := binary.LittleEndian.Uint32(hd[4:])
		op := binary.LittleEndian.Uint32(hd[12:])
		var out []byte
		if op == 2004 { // OP_QUERY: the handshake
			b, _ := bson.Marshal(hello(d, i, addrs))
			out = make([]byte, 16, 36+len(b))
			binary.LittleEndian.PutUint32(out[8:], id)
			binary.LittleEndian.PutUint32(out[12:], 1)
			out = append(out, make([]byte, 16)...) // flags, cursor id, starting from
			out = append(out, 1, 0, 0, 0)
			out = append(out, b...)
			binary.LittleEndian.PutUint32(out, uint32(len(out)))
		} else {
			Lock.Lock()
			b := func() []byte {
				first := firstKey(wm)
				if first == "hello" || first == "isMaster" || first == "ismaster" {
					b, _ := bson.Marshal(hello(d, i, addrs))
					o := make([]byte, 16, 21+len(b))
					binary.LittleEndian.PutUint32(o[8:], id)
					binary.LittleEndian.PutUint32(o[12:], 2013)
					o = append(o, 0, 0, 0, 0, 0)
					o = append(o, b...)
					binary.LittleEndian.PutUint32(o, uint32(len(o)))
					return o
				}
				return d.Handle(i, wm)
			}()
			Lock.Unlock()
			out = b
		}
		if _, err := c.Write(out); err != nil {
			return
		}
	}
}

func firstKey(wm []byte) string {
	b := wm[16+4+1+4+1:]
	if k := bytes.IndexByte(b, 0); k >= 0 {
		return string(b[:k])
	}
	return ""
}
