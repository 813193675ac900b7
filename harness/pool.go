package main

import (
	"github.com/timtadh/data-structures/pool"
	"verif.local/sim/simrt"
)

// ptask is the harness' view of one submitted function.
type ptask struct {
	id       int
	called   bool // Do called
	accepted bool // Do returned nil
	rejected bool
	running  bool
	runs     int
	finished bool
}

type poolModel struct {
	h       *H
	p       *pool.Pool
	prop    string
	n       int
	tasks   []*ptask
	nfinish int // bodies finished
	open    int // accepted, body not finished
	running int
	clients map[int]bool // ids of harness tasks

	stopsStarted, stopsReturned int
	holder                      int // WaitLock holders inside
	nested                      bool
	nestLeft                    int
}

func (m *poolModel) stopped() bool { return m.stopsReturned > 0 && m.stopsReturned == m.stopsStarted }

func (m *poolModel) body(t *ptask, dur, sleep int, nest bool) func() {
	h := m.h
	return func() {
		t.runs++
		h.Logf("task %d starts", t.id)
		h.Check(!m.clients[h.S.Cur().ID], "ran-on-caller", "task %d was executed by the calling goroutine", t.id)
		h.Check(t.runs == 1, "ran-twice", "task %d was executed %d times", t.id, t.runs)
		h.Check(!t.rejected, "rejected-ran", "task %d was rejected by Do but executed", t.id)
		h.Check(!m.stopped(), "start-after-stop", "task %d started after every Stop call had returned", t.id)
		h.Check(m.holder == 0, "run-under-waitlock", "task %d started while the pool was wait-locked", t.id)
		t.running = true
		m.running++
		h.Check(m.running <= m.n, "too-many-at-once", "%d tasks run at the same time in a pool of %d", m.running, m.n)
		for i := 0; i < dur; i++ {
			simrt.Yield()
		}
		if sleep > 0 {
			h.S.Sleep(int64(sleep))
		}
		if nest && m.nestLeft > 0 {
			m.nestLeft--
			m.do(1, 0, true)
		}
		t.running = false
		m.running--
		t.finished = true
		m.nfinish++
		if t.accepted {
			m.open--
		}
		h.Check(m.holder == 0, "run-under-waitlock", "task %d still running while the pool was wait-locked", t.id)
		h.Check(!m.stopped(), "run-after-stop", "task %d still running after every Stop call had returned", t.id)
		h.Logf("task %d ends", t.id)
	}
}

func (m *poolModel) do(dur, sleep int, nest bool) {
	h := m.h
	t := &ptask{id: len(m.tasks)}
	m.tasks = append(m.tasks, t)
	afterStop := m.stopsReturned > 0
	t.called = true
	h.Logf("Do(%d) called", t.id)
	err := m.p.Do(m.body(t, dur, sleep, nest))
	if err == nil {
		t.accepted = true
		if !t.finished {
			m.open++
		}
		h.Logf("Do(%d) accepted", t.id)
		h.Check(!afterStop, "accept-after-stop", "Do called after a Stop had returned accepted task %d", t.id)
		h.Check(m.holder == 0 || t.finished, "accept-under-waitlock", "Do accepted task %d while the pool was wait-locked", t.id)
		h.Check(!m.stopped() || t.finished, "accept-lost-by-stop", "task %d was accepted but not completed when Stop returned", t.id)
	} else {
		t.rejected = true
		h.Logf("Do(%d) rejected", t.id)
		h.Check(t.runs == 0, "rejected-ran", "task %d was executed although Do returned an error", t.id)
		h.Check(m.stopsStarted > 0 || m.n == 0, "rejected-unstopped", "Do returned an error (%T) although Stop was never called", err)
	}
}

func (m *poolModel) stop() {
	h := m.h
	m.stopsStarted++
	h.Logf("Stop called")
	m.p.Stop()
	m.stopsReturned++
	h.Logf("Stop returned")
	if m.stopped() {
		for _, t := range m.tasks {
			h.Check(!t.running, "run-after-stop", "task %d is running although every Stop call has returned", t.id)
			h.Check(!t.accepted || t.finished, "accept-lost-by-stop", "accepted task %d not completed although every Stop call has returned", t.id)
		}
	}
}

func (m *poolModel) waitLock(hold, sleep int) {
	h := m.h
	h.Logf("WaitLock called")
	m.p.WaitLock()
	h.Logf("WaitLock returned")
	h.Check(m.holder == 0, "waitlock-exclusion", "two WaitLock calls hold the pool at the same time")
	m.holder++
	check := func() {
		for _, t := range m.tasks {
			h.Check(!t.running, "run-under-waitlock", "task %d is running while the pool is wait-locked", t.id)
			h.Check(!t.accepted || t.finished, "pending-under-waitlock", "accepted task %d has not completed while the pool is wait-locked", t.id)
		}
	}
	check()
	for i := 0; i < hold; i++ {
		simrt.Yield()
	}
	if sleep > 0 {
		h.S.Sleep(int64(sleep))
	}
	check()
	m.holder--
	m.p.Unlock()
	h.Logf("Unlock returned")
}

func (m *poolModel) waitCount() {
	h := m.h
	// tasks that were certainly outstanding when the call began / may be
	before := len(m.tasks)
	acceptedBefore := make([]bool, before)
	finishedBefore := make([]bool, before)
	outstanding := 0
	for i, t := range m.tasks {
		acceptedBefore[i] = t.accepted
		finishedBefore[i] = t.finished || t.rejected
		if t.accepted && !t.finished {
			outstanding++
		}
	}
	finAtCall := m.nfinish
	// settled: no worker is between finishing a task and accounting for it
	unsettled := -m.running
	for _, d := range h.S.Tasks() {
		if d.Daemon && !d.Done() && !(d.Blocked() && d.BlockedOn() == "channel receive") {
			unsettled++
		}
	}
	h.Logf("WaitCount called")
	n := m.p.WaitCount()
	h.Logf("WaitCount = %d", n)
	lower, upper := 0, 0
	for i, t := range m.tasks {
		if i < before && acceptedBefore[i] && !t.finished {
			lower++ // outstanding during the whole call
		}
		if i >= before || !finishedBefore[i] {
			upper++ // outstanding during a part of it
		}
	}
	if unsettled > finAtCall {
		unsettled = finAtCall
	}
	if unsettled > 0 {
		upper += unsettled // workers about to account for a task finished before the call
	}
	h.Check(n <= upper, "waitcount-high", "WaitCount returned %d but at most %d tasks were outstanding during the call", n, upper)
	h.Check(n >= lower, "waitcount-low", "WaitCount returned %d although %d tasks were outstanding during the whole call", n, lower)
	if outstanding > 0 && lower > 0 && unsettled <= 0 && m.nfinish == finAtCall {
		h.Fail("waitcount-early", "WaitCount returned %d with work outstanding although no task finished during the call", n)
	}
}

type poolOpts struct {
	prop               string
	nested             bool
	saturate           bool
	many               bool
	doW, wcW, wlW, stW int
}

func poolRun(h *H, o poolOpts) {
	m := &poolModel{h: h, prop: o.prop, clients: map[int]bool{h.S.Cur().ID: true}}
	if o.saturate {
		m.n = Pick(h, 1, 1, 2)
	} else {
		m.n = Pick(h, 1, 2, 3, 4, 1, 2, 8)
		if h.OneIn(100) {
			m.n = Pick(h, 17, 40, 0)
		}
	}
	if o.many {
		m.n = Pick(h, 1, 2, 4, 8)
	}
	// many: tasks per client
	total := h.Range(150, 300)
	if o.many && h.OneIn(50) {
		total = h.Range(1000, 3000)
		h.S.Cfg.MeanGap *= 5
		m.n = Pick(h, 2, 100, 300, 700)
	}
	if o.many && h.OneIn(1000) {
		total = 66_000
		m.n = Pick(h, 700, 2)
		h.S.Cfg.MaxOp *= 20
		h.S.Cfg.MaxSteps *= 20
		h.S.Cfg.MeanGap *= 30
	}
	m.nested = o.nested
	m.nestLeft = 3
	nc := Pick(h, 2, 3, 1, 4, 5)
	type op struct{ kind, a, b, c int }
	plans := make([][]op, nc)
	dos := 0
	for c := range plans {
		k := h.Range(1, 5)
		if h.OneIn(12) {
			k = h.Range(5, 25)
		}
		if o.many {
			// few other operations among many submissions
			for i := h.N(3); i > 0; i-- {
				switch r := h.N(o.wcW + o.wlW + o.stW); {
				case r < o.wcW:
					plans[c] = append(plans[c], op{1, 0, 0, h.N(total / nc)})
				case r < o.wcW+o.wlW:
					plans[c] = append(plans[c], op{2, h.N(4), 0, h.N(total / nc)})
				case h.OneIn(4):
					plans[c] = append(plans[c], op{3, 0, 0, h.N(total / nc)})
				}
			}
			continue
		}
		for i := 0; i < k; i++ {
			r := h.N(o.doW + o.wcW + o.wlW + o.stW)
			switch {
			case r < o.doW:
				plans[c] = append(plans[c], op{0, h.N(4), Pick(h, 0, 0, 0, 50, 1000), 0})
				dos++
			case r < o.doW+o.wcW:
				plans[c] = append(plans[c], op{1, 0, 0, 0})
			case r < o.doW+o.wcW+o.wlW:
				plans[c] = append(plans[c], op{2, h.N(4), Pick(h, 0, 0, 200), 0})
			default:
				plans[c] = append(plans[c], op{3, 0, 0, 0})
			}
		}
	}
	burst := 0
	if o.saturate {
		burst = m.n*100 + h.Range(0, 6) + 1
		h.Probe("queue-saturated")
	}
	blocked := o.many && h.OneIn(2) // the first tasks take long
	late := h.OneIn(3)              // clients start before the workers had a chance to run
	m.p = pool.New(m.n)
	if !late {
		for i := 0; i < 3; i++ {
			simrt.Gosched()
		}
	}
	var cs []*simrt.Task
	if burst > 0 {
		cs = append(cs, h.S.Spawn("burst", func() {
			m.do(0, 5000, false)
			for i := 0; i < burst; i++ {
				m.do(0, 0, false)
			}
		}))
	}
	for c := range plans {
		plan := plans[c]
		cs = append(cs, h.S.Spawn("client", func() {
			if burst > 0 {
				h.S.Sleep(int64(1 + len(plan)))
			}
			if o.many {
				for i, k := 0, 0; i < total/nc; i++ {
					for ; k < len(plan) && plan[k].c <= i; k++ {
						switch plan[k].kind {
						case 1:
							m.waitCount()
						case 2:
							m.waitLock(plan[k].a, 0)
						case 3:
							m.stop()
						}
					}
					sleep := 0
					if blocked && i <= m.n/nc {
						sleep = 100_000
					}
					m.do(i&1, sleep, false)
				}
				return
			}
			for _, op := range plan {
				switch op.kind {
				case 0:
					m.do(op.a, op.b, o.nested)
				case 1:
					m.waitCount()
				case 2:
					m.waitLock(op.a, op.b)
				case 3:
					m.stop()
				}
			}
		}))
	}
	for _, t := range cs {
		m.clients[t.ID] = true
	}
	h.S.Join(cs...)
	if m.stopsStarted == 0 {
		h.S.WaitUntil("accepted tasks to be executed", func() bool { return m.open == 0 })
		n := m.p.WaitCount()
		for i := 0; n != 0 && i < len(m.tasks)+m.n+1; i++ {
			n = m.p.WaitCount()
		}
		h.Check(n == 0, "waitcount-idle", "WaitCount returns %d although all work has finished", n)
		m.stop()
	}
	for _, t := range m.tasks {
		want := 0
		if t.accepted {
			want = 1
		}
		h.Check(t.runs == want, "not-exactly-once", "task %d accepted=%v was executed %d times", t.id, t.accepted, t.runs)
	}
	// late submissions must be refused
	m.do(0, 0, false)
	m.stop()
	n := m.p.WaitCount()
	h.Check(n == 0, "waitcount-idle", "WaitCount returns %d on a stopped idle pool", n)
}

func init() {
	for _, p := range []struct {
		prop string
		race bool
		o    poolOpts
	}{
		{"C01", false, poolOpts{doW: 6, wcW: 1, wlW: 1, stW: 2}},
		{"C02", false, poolOpts{doW: 5, wcW: 1, wlW: 1, stW: 4}},
		{"C03", false, poolOpts{doW: 5, wcW: 1, wlW: 4, stW: 1}},
		{"C04", false, poolOpts{doW: 6, wcW: 5, wlW: 1, stW: 1}},
		{"C05", true, poolOpts{doW: 5, wcW: 3, wlW: 3, stW: 2}},
	} {
		p := p
		p.o.prop = p.prop
		register(&Scenario{Prop: p.prop, Name: "mixed", Weight: 12, Race: p.race, Stalls: true, Steps: 400_000, Run: func(h *H) { poolRun(h, p.o) }})
		sat := p.o
		sat.saturate = true
		register(&Scenario{Prop: p.prop, Name: "saturated", Weight: 1, Race: p.race, Stalls: true, Steps: 2_000_000, Run: func(h *H) { poolRun(h, sat) }})
		many := p.o
		many.many = true
		register(&Scenario{Prop: p.prop, Name: "many", Weight: 1, Race: p.race, Stalls: true, Steps: 10_000_000, Run: func(h *H) { poolRun(h, many) }})
		two := p.o
		register(&Scenario{Prop: p.prop, Name: "two-pools", Weight: 1, Race: p.race, Stalls: true, Steps: 800_000, Run: func(h *H) {
			a := h.S.Spawn("first", func() { poolRun(h, two) })
			b := h.S.Spawn("second", func() { poolRun(h, two) })
			h.S.Join(a, b)
		}})
		nst := p.o
		nst.nested = true
		nst.wlW = 0
		register(&Scenario{Prop: p.prop, Name: "nested", Weight: 2, Race: p.race, Stalls: true, Steps: 400_000, Run: func(h *H) { poolRun(h, nst) }})
	}
}
