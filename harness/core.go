package main

import (
	"fmt"
	"sort"

	"verif.local/sim/simrt"
)

// H is what a scenario sees of the running simulation.
type H struct {
	S     *simrt.Sim
	Src   *simrt.Source
	Big   bool // thorough tier: larger workloads
	Fault map[string]uint64
}

func (h *H) N(n int) int                    { h.S.Progress(); return h.Src.Intn(n) }
func (h *H) Range(a, b int) int             { h.S.Progress(); return a + h.Src.Intn(b-a+1) }
func (h *H) OneIn(n int) bool               { h.S.Progress(); return h.Src.OneIn(n) }
func (h *H) Logf(f string, a ...any)        { h.S.Logf(f, a...) }
func (h *H) Fail(class, f string, a ...any) { h.S.Fail(class, f, a...) }
func (h *H) Probe(n string)                 { h.S.Probe(n) }
func (h *H) Inject(kind string)             { h.Fault[kind]++ }
func (h *H) Check(ok bool, class, f string, a ...any) {
	h.S.Progress()
	if !ok {
		h.Fail(class, f, a...)
	}
}

// Pick chooses one of the options; the first is the simplest.
func Pick[T any](h *H, xs ...T) T { return xs[h.N(len(xs))] }

// Scenario is one family of simulated executions deciding a property.
type Scenario struct {
	Prop   string
	Name   string
	Weight int  // share of the runs
	Race   bool // happens-before oracle on
	Steps  uint64
	// Gaps: mean distance (in memory/statement points) between preemptions to choose from; 0 = none
	Gaps []int
	// Kinds of faults this scenario can inject, for the evidence
	Stalls bool
	Run    func(h *H)
}

var scenarios []*Scenario

func register(s *Scenario) {
	if s.Weight == 0 {
		s.Weight = 1
	}
	if s.Gaps == nil {
		s.Gaps = []int{0, 1, 2, 4, 8, 16, 40, 100, 300}
	}
	scenarios = append(scenarios, s)
}

func scenariosOf(prop string) []*Scenario {
	var out []*Scenario
	for _, s := range scenarios {
		if s.Prop == prop {
			out = append(out, s)
		}
	}
	return out
}

func scenarioByName(prop, name string) *Scenario {
	for _, s := range scenarios {
		if s.Prop == prop && s.Name == name {
			return s
		}
	}
	return nil
}

func props() []string {
	m := map[string]bool{}
	for _, s := range scenarios {
		m[s.Prop] = true
	}
	var out []string
	for p := range m {
		out = append(out, p)
	}
	sort.Strings(out)
	return out
}

// Result of one simulated execution.
type Result struct {
	Viol       *simrt.Violation
	Stats      simrt.Stats
	Fault      map[string]uint64
	EvHash     uint64
	SwHash     uint64
	Choices    []uint32
	Events     []string
	Tasks      int
	HarnessErr string
}

func execute(sc *Scenario, src *simrt.Source, big, trace bool) (res *Result) {
	resetKeys()
	h := &H{Src: src, Big: big, Fault: map[string]uint64{}}
	cfg := simrt.Config{MaxSteps: sc.Steps, Race: sc.Race, Trace: trace}
	// swarm: each run draws its own scheduling temperament
	cfg.MeanGap = sc.Gaps[src.Intn(len(sc.Gaps))]
	cfg.SyncOneIn = []int{0, 1, 2, 3, 6, 20}[src.Intn(6)]
	if sc.Stalls {
		cfg.StallOneIn = []int{0, 4, 12, 40}[src.Intn(4)]
		cfg.StallLen = []int{20, 100, 1000, 5000}[src.Intn(4)]
	}
	res = &Result{}
	defer func() {
		if r := recover(); r != nil {
			res.HarnessErr = fmt.Sprint(r)
		}
	}()
	s := simrt.Run(src, cfg, func(s *simrt.Sim) {
		h.S = s
		sc.Run(h)
	})
	res.Viol = s.Violation()
	res.Stats = s.Stats
	res.Fault = h.Fault
	if s.Stats.Stalls > 0 {
		h.Fault["task-stalled"] += s.Stats.Stalls
	}
	if s.Stats.Kills > 0 {
		h.Fault["task-killed"] += s.Stats.Kills
	}
	res.EvHash = s.EventHash()
	res.SwHash = s.ScheduleHash()
	res.Choices = src.Log
	res.Events = s.Events
	res.Tasks = len(s.Tasks())
	return res
}

func mix(a, b uint64) uint64 {
	z := a + 0x9E3779B97F4A7C15*(b+1)
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

func runSeed(base uint64, prop, scen string, i uint64) uint64 {
	return mix(mix(mix(base, hashStr(prop)), hashStr(scen)), i)
}
