package simtest

import (
	"fmt"
	"strings"

	"verifsim/simrt"
)

const (
	sinkFlush = 300000 // an event is sent at the latest five minutes after it happened
	sinkCalm  = 60000  // after so long a working sink has got whatever waited
	sinkRoom  = 9000   // so many events always find room in the buffer
)

func sinkBad(mode string) bool { return mode == "hang" || mode == "down" || mode == "busy" }

// sink notes that the behaviour of the sink has changed: what it has not got yet
// may be lost if it is not available now.
func (m *model) sink() {
	if !sinkBad(m.s.W.Elastic.Mode().Mode) {
		return
	}
	m.forgetUnsent()
}

func (m *model) forgetUnsent() {
	l, _ := m.s.audited()
	have := map[string]int64{}
	for _, e := range l {
		have[e.Signal+"\x00"+e.Queue+"\x00"+e.ID+"\x00"+told(e.Reason, e.Breakpoint, e.LockMs)]++
	}
	for k, b := range m.audit {
		b.lo = min(b.lo, have[k])
	}
}

// sinkLoose tells whether an event of now may be lost.
func (m *model) sinkLoose() bool {
	l := m.s.W.Elastic.Modes
	if len(l) == 0 {
		return false
	}
	now := m.s.now()
	for i := len(l) - 1; i >= 0; i-- {
		if sinkBad(l[i].Mode) || (l[i].Mode == "slow" && m.auds > sinkRoom) {
			return true
		}
		if l[i].Mode == "up" && now-l[i].At > sinkCalm {
			return false
		}
	}
	return false
}

// auditDelay is how long after it happened the sink may get an event.
func (m *model) auditDelay(from, to int64) int64 {
	const slack = 2000
	limit := int64(sinkFlush + slack)
	l := m.s.W.Elastic.Modes
	for i := len(l) - 1; i >= 0; i-- {
		if l[i].At > to {
			continue
		}
		switch {
		case sinkBad(l[i].Mode):
			return 1 << 60
		case l[i].Mode == "slow":
			limit = max(limit, sinkFlush+slack+(l[i].Ms+1000)*(m.auds/200+3))
		}
		if l[i].At < from-sinkCalm && l[i].Mode == "up" {
			break
		}
	}
	return limit
}

// prompt says that no request waits for the audit for long.
func (m *model) prompt(ev *Ev) {
	if m.dead || !m.s.Env.Audit || len(m.s.W.Elastic.Modes) == 0 || !(isClient(ev.Op.K) || isPass(ev.Op.K)) || ev.Faulty() {
		return
	}
	limit := int64(5000)
	for _, x := range m.s.W.Elastic.Modes {
		if sinkBad(x.Mode) {
			limit = 45000
		}
		if x.Mode == "slow" && m.auds > sinkRoom {
			return
		}
	}
	m.s.checked("audit-latency")
	if d := ev.T1 - ev.T0; d > limit {
		m.auditFail("audit-blocks", fmt.Sprintf("%s took %d ms with the sink %s", ev.Op.K, d, m.s.W.Elastic.Mode().Mode))
	}
}

// endAudit lets the sender send what it has: it waits, or stops it in an orderly way.
func (m *model) endAudit(step func(*Op) bool) bool {
	s := m.s
	if s.Env.Stop == 2 {
		q := "q0"
		if qs := sortedKeys(m.byq); len(qs) > 0 {
			q = qs[len(qs)-1]
		}
		if q == "" || m.braces(q) {
			q = "q0"
		}
		if !step(&Op{K: "add", Q: q, Gen: fmt.Sprintf("y,0,%d,same", 1+s.Seed%450)}) {
			return false
		}
	}
	mode := s.W.Elastic.Mode()
	if s.Env.Stop == 0 {
		if mode.Mode != "up" {
			step(&Op{K: "sink", Arg: "up"})
		}
		simrt.Sleep(330e9)
		if mode.Mode == "slow" {
			simrt.Sleep(1800e9)
		}
		return true
	}
	limit := int64(2000)
	for _, x := range s.W.Elastic.Modes {
		switch {
		case x.Mode == "hang":
			limit = max(limit, 32000*(m.auds/200+3))
		case x.Mode == "slow":
			limit = max(limit, (x.Ms+1000)*(m.auds/200+3))
		case sinkBad(x.Mode):
			limit = max(limit, 5000*(m.auds/200+3))
		}
	}
	at := s.now()
	for _, n := range s.Nodes {
		if n.Up && n.stopAudit != nil {
			n.stopAudit()
		}
	}
	s.checked("audit-stop")
	for _, n := range s.Nodes {
		for n.Up && n.stopAudit != nil && n.auditEnded == 0 {
			if s.now()-at > limit {
				m.auditFail("audit-stop", fmt.Sprintf("the audit sender of n%d still runs %d ms after it was told to stop, the sink being %s", n.I, limit, mode.Mode))
				return false
			}
			simrt.Sleep(500e6)
		}
	}
	return true
}

// sink makes the operations of the sink profile.
func (g *gen) sink(k string) []*Op {
	r := g.r
	switch k {
	case "sink":
		o := &Op{A: "env", K: "sink"}
		o.Arg = strings.Fields("up up slow slow hang down busy")[r.Intn(7)]
		if o.Arg == "slow" {
			o.Val = int64(100 + r.Intn(20000))
		}
		if r.Bool(0.3) {
			o.Pre = int64(r.Intn(90000))
		}
		return []*Op{o}
	case "flood":
		if !sinkBad(g.s.W.Elastic.Mode().Mode) || g.m.auds > 2*sinkRoom {
			return nil
		}
		l := []*Op{{A: "c", K: "add", Q: g.queue(), Gen: fmt.Sprintf("z,0,%d,same", 9500+r.Intn(1200))}}
		for i := r.Intn(3); i > 0; i-- {
			l = append(l, g.ops([]string{"add", "pull", "ack"}[r.Intn(3)])...)
		}
		return append(l, &Op{A: "env", K: "sink", Arg: "up", Pre: int64(r.Intn(60000))})
	}
	var l []*Op
	for i := 5 + r.Intn(15); i > 0; i-- {
		for _, o := range g.ops([]string{"add", "pull", "ack", "remove"}[r.Intn(4)]) {
			o.Pre += int64(20000 + r.Intn(220000))
			l = append(l, o)
		}
	}
	return l
}
