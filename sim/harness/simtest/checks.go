package simtest

import (
	"encoding/json"
	"fmt"
	"strings"
	"time"

	"github.com/takenet/deckard/internal/metrics"
	"go.opentelemetry.io/otel/metric"

	"verifsim/simredis"
)

// resetMetrics forgets what earlier runs of this process counted.
func resetMetrics() {
	metric.Default.Reset()
	metrics.MetricsMap = metrics.NewQueueMetricsMap()
}

type auditEntry struct {
	ID          string    `json:"id"`
	Queue       string    `json:"queue"`
	QueuePrefix string    `json:"queue_prefix"`
	QueueSuffix string    `json:"queue_suffix"`
	Timestamp   time.Time `json:"timestamp"`
	Signal      string    `json:"signal"`
	Reason      string    `json:"reason"`
	LockMs      int64     `json:"lock_ms"`
	Breakpoint  string    `json:"breakpoint"`

	at int64 // when the sink got it
}

// told is what an audit event tells besides its message, its signal and its time.
func told(reason, bp string, lock int64) string {
	return fmt.Sprintf("%s\x01%s\x01%d", reason, bp, max(lock, 0))
}

// audited parses what the sink got.
func (s *Sim) audited() (l []auditEntry, err string) {
	for n, b := range s.W.Elastic.Bodies {
		lines := strings.Split(strings.TrimRight(b, "\n"), "\n")
		for i := 0; i < len(lines); i += 2 {
			if i+1 >= len(lines) {
				return l, "a bulk request with an odd number of lines"
			}
			var a struct {
				Index *struct{} `json:"index"`
			}
			if json.Unmarshal([]byte(lines[i]), &a) != nil || a.Index == nil {
				return l, "a bulk request with a malformed action line: " + lines[i]
			}
			var e auditEntry
			if json.Unmarshal([]byte(lines[i+1]), &e) != nil {
				return l, "a bulk request with a malformed entry: " + lines[i+1]
			}
			e.at = s.W.Elastic.Times[n]
			l = append(l, e)
		}
	}
	return l, ""
}

func (m *model) auditFail(kind, msg string) {
	m.dead = true
	m.s.violate(len(m.s.Hist)-1, kind, msg, "C19")
}

// checkAudit compares the sink with the reference model.
func (m *model) checkAudit() {
	m.s.checked("audit")
	l, bad := m.s.audited()
	if bad != "" {
		m.auditFail("audit-format", bad)
		return
	}
	for _, e := range l {
		if limit := m.auditDelay(e.Timestamp.UnixMilli(), e.at); e.at-e.Timestamp.UnixMilli() > limit {
			m.auditFail("audit-late", fmt.Sprintf("the event %s of %q/%q of %d was sent at %d, after %d ms", e.Signal, e.Queue, e.ID, e.Timestamp.UnixMilli(), e.at, e.at-e.Timestamp.UnixMilli()))
			return
		}
	}
	have := map[string]int64{}
	times := map[string][]int64{}
	now := time.Now()
	for _, e := range l {
		k := e.Signal + "\x00" + e.Queue + "\x00" + e.ID + "\x00" + told(e.Reason, e.Breakpoint, e.LockMs)
		have[k]++
		times[k] = append(times[k], e.Timestamp.UnixMilli())
		if i := strings.Index(e.Queue, "::"); i >= 0 {
			if e.QueuePrefix != e.Queue[:i] || e.QueueSuffix != e.Queue[i+2:] {
				m.auditFail("audit-prefix", fmt.Sprintf("an event of queue %q was sent with prefix %q and suffix %q", e.Queue, e.QueuePrefix, e.QueueSuffix))
				return
			}
		} else if e.QueuePrefix != e.Queue || e.QueueSuffix != "" {
			m.auditFail("audit-prefix", fmt.Sprintf("an event of queue %q was sent with prefix %q and suffix %q", e.Queue, e.QueuePrefix, e.QueueSuffix))
			return
		}
		if e.Timestamp.UnixMilli() < m.s.T00-1 || e.Timestamp.After(now) {
			m.auditFail("audit-time", fmt.Sprintf("an event of %q/%q was sent with time %v", e.Queue, e.ID, e.Timestamp))
			return
		}
	}
	show := func(k string) string {
		p := strings.Split(k, "\x00")
		w := strings.Split(p[3], "\x01")
		return fmt.Sprintf("%s of %q/%q (reason %q, breakpoint %q, lock %s ms)", p[0], p[1], p[2], w[0], w[1], w[2])
	}
	for _, k := range sortedKeys(m.audit) {
		b := m.audit[k]
		if h := have[k]; h < b.lo || h > b.hi {
			m.auditFail("audit-count", fmt.Sprintf("the sink got %d events %s, the reference model says %d..%d", h, show(k), b.lo, b.hi))
			return
		}
	}
	for _, k := range sortedKeys(have) {
		b := m.audit[k]
		if b == nil {
			m.auditFail("audit-unknown", fmt.Sprintf("the sink got %d events %s, which never happened", have[k], show(k)))
			return
		}
		for _, t := range times[k] {
			if !b.during(t) {
				m.auditFail("audit-when", fmt.Sprintf("the sink got an event %s of the time %d, when nothing of the kind happened", show(k), t))
				return
			}
		}
	}
}

var countedMetrics = []string{"deckard_ack", "deckard_nack", "deckard_message_timeout", "deckard_message_unlock", "deckard_ttl_messages_removed", "deckard_exceeding_messages_removed"}

// checkCounters compares the exported counters with the reference model.
func (m *model) checkCounters() {
	m.s.checked("counters")
	have := metric.Default.Snapshot()
	for _, k := range sortedKeys(m.count) {
		b := m.count[k]
		if h := have[k]; h < b.lo || h > b.hi {
			m.dead = true
			m.s.violate(len(m.s.Hist)-1, "counter", fmt.Sprintf("the counter %s is %d, the reference model says %d..%d", k, h, b.lo, b.hi), "C29")
			return
		}
	}
	for _, k := range sortedKeys(have) {
		n, _, _ := strings.Cut(k, "{")
		if m.count[k] == nil && have[k] != 0 && has(countedMetrics, n) {
			m.dead = true
			m.s.violate(len(m.s.Hist)-1, "counter-unknown", fmt.Sprintf("the counter %s is %d although no such event happened", k, have[k]), "C29")
			return
		}
	}
}

// plantForeign puts data of others on the Redis servers.
func (s *Sim) plantForeign() {
	p := s.Env.Prefix
	if p == "" {
		p = "deckard_v1"
	}
	pres := []string{"other", "xdeckard_v1", "deckard", "deckard_v1x", p + "x", "x" + p, p + "x:y"}
	if p != "deckard_v1" {
		pres = append(pres, "deckard_v1")
	}
	s.foreign = map[*simredis.Server]map[string]string{}
	for i, r := range s.Redis {
		f := map[string]string{}
		s.foreign[r] = f
		for j, x := range pres {
			if x == p {
				continue
			}
			for k, suf := range []string{"", ":tmp", ":lock_ack", ":lock_nack", ":lock_ack:score", ":lock_nack:score"} {
				q := []string{"q0", "q1", "zz", "a"}[(i+j+k)%4]
				key := x + ":queue:{" + q + "}" + suf
				for n := 0; n < 3; n++ {
					r.PutZ(key, fmt.Sprintf("m%d", n), float64(1+n))
				}
			}
			r.Put(x+":{RECOVERY}", "x")
			r.Put(x+":plain", "v")
		}
		r.Put(p, "itself")
		r.Put(p+"_other", "v")
		r.Put("session:1", "v")
	}
	for _, r := range s.Redis {
		for _, k := range r.Keys() {
			if !strings.HasPrefix(k, p+":") {
				s.foreign[r][k] = r.Dump(k)
			}
		}
	}
}

// checkForeign says whether they are as they were.
func (s *Sim) checkForeign() {
	s.checked("foreign")
	p := s.Env.Prefix
	if p == "" {
		p = "deckard_v1"
	}
	for i, r := range s.Redis {
		have := map[string]bool{}
		for _, k := range r.Keys() {
			if strings.HasPrefix(k, p+":") {
				continue
			}
			have[k] = true
			if v, ok := s.foreign[r][k]; !ok {
				s.violate(len(s.Hist)-1, "foreign", fmt.Sprintf("a key outside the deployment's namespace was created on server %d: %q = %s", i, k, r.Dump(k)), "C14")
				return
			} else if v != r.Dump(k) {
				s.violate(len(s.Hist)-1, "foreign", fmt.Sprintf("a key of others changed on server %d: %q was %s, is %s", i, k, v, r.Dump(k)), "C14")
				return
			}
		}
		for _, k := range sortedKeys(s.foreign[r]) {
			if !have[k] {
				s.violate(len(s.Hist)-1, "foreign", fmt.Sprintf("a key of others vanished from server %d: %q", i, k), "C14")
				return
			}
		}
	}
}
