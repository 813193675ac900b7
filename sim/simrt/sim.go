// Package simrt is the deterministic simulator: a cooperative scheduler for
// the instrumented code under test, a source of recorded choices, simulated
// time, fault injection and a happens-before race detector.
//
// Every simulated task is a coroutine (iter.Pull); exactly one runs at any
// instant, and which one runs next is decided by the choice source alone.
package simrt

import (
	"fmt"
	"iter"
	"regexp"
	"runtime"
	"strings"
	"unsafe"
)

// ---------------------------------------------------------------- choices

// Source yields every nondeterministic decision of a run. In generation mode
// it is driven by a PRNG, in replay mode by a recorded list (0 when exhausted).
type Source struct {
	state  uint64
	replay bool
	in     []uint32
	pos    int
	Log    []uint32
}

func NewSource(seed uint64) *Source {
	s := &Source{state: seed*0x9E3779B97F4A7C15 + 0x1234567}
	s.next()
	s.next()
	return s
}

func NewReplay(in []uint32) *Source { return &Source{replay: true, in: in} }

func (s *Source) next() uint64 {
	s.state += 0x9E3779B97F4A7C15
	z := s.state
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// draw records and returns a value in [0,n); gen produces it in generation
// mode from 64 random bits.
func (s *Source) draw(n uint32, gen func(r uint64) uint32) uint32 {
	var v uint32
	if s.replay {
		if s.pos < len(s.in) {
			v = s.in[s.pos]
			s.pos++
			if n > 0 && v >= n {
				v = n - 1
			}
		}
	} else {
		v = gen(s.next())
	}
	s.Log = append(s.Log, v)
	return v
}

// Intn returns a recorded value in [0,n). 0 is always the simplest choice.
func (s *Source) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(s.draw(uint32(n), func(r uint64) uint32 { return uint32((r >> 32) * uint64(n) >> 32) }))
}

// OneIn returns true with probability 1/n; recorded as 0/1.
func (s *Source) OneIn(n int) bool {
	if n <= 0 {
		return false
	}
	return s.draw(2, func(r uint64) uint32 {
		if (r>>33)%uint64(n) == 0 {
			return 1
		}
		return 0
	}) == 1
}

// gap draws the number of points to the next preemption: geometric with the
// given mean, 0 meaning "no preemption until the task blocks".
func (s *Source) gap(mean int) uint32 {
	return s.draw(0, func(r uint64) uint32 {
		if mean <= 0 {
			return 0
		}
		g := uint32(1)
		x := r
		for i := 0; g < 1<<16; i++ {
			x = x*6364136223846793005 + 1442695040888963407
			if (x>>33)%uint64(mean) == 0 {
				break
			}
			g++
			if g > uint32(mean)*12 {
				break
			}
		}
		return g
	})
}

// ---------------------------------------------------------------- tasks

type tstate uint8

const (
	runnable tstate = iota
	blocked
	done
)

type Task struct {
	ID     int
	Name   string
	Daemon bool // may be left blocked at the end of a run
	state  tstate
	next   func() (struct{}, bool)
	stop   func()
	yield  func(struct{}) bool
	ready  func() bool // when blocked: becomes runnable once true
	why    string
	vc     vclock
	stall  uint64 // not scheduled before this step unless nothing else can run
	Killed bool
	Panic  any
	Trace  string
	gone   bool   // coroutine finished
	inSync int    // >0: inside an atomic section (no preemption)
	held   int    // locks held: a goroutine cannot vanish while holding one
	op     uint64 // points since the harness last had control in this task
	// touch: the task used a channel or wrote an atomic variable since the
	// harness last had control. It may hold a lock made of them, so it is not
	// killed until then.
	touch bool
}

func (t *Task) Done() bool        { return t.state == done }
func (t *Task) Blocked() bool     { return t.state == blocked }
func (t *Task) BlockedOn() string { return t.why }

// Hold notes that the current task acquired (or, with -1, released) a lock.
func (s *Sim) Hold(d int) {
	if t := s.cur; t != nil && t.held+d >= 0 {
		t.held += d
	}
}

// Touch notes that the current task may have acquired a lock made of a channel
// or an atomic variable.
func Touch() {
	if S != nil && S.cur != nil {
		S.cur.touch = true
	}
}

// Violation describes a broken property. Class identifies it for shrinking.
type Violation struct {
	Class string
	Msg   string
}

type Config struct {
	MaxSteps   uint64
	MaxOp      uint64 // steps of one operation
	MeanGap    int    // mean number of memory/statement points between preemptions; 0 none
	SyncOneIn  int    // preempt at a synchronisation point with probability 1/n; 0 never
	StallOneIn int    // at a scheduling decision, stall the task just preempted with probability 1/n; 0 never
	StallLen   int
	Race       bool
	Trace      bool
}

type Sim struct {
	Src       *Source
	Cfg       Config
	tasks     []*Task
	cur       *Task
	nalive    int
	steps     uint64
	budget    uint32
	viol      *Violation
	chans     map[unsafe.Pointer]*chanState
	shadow    map[unsafe.Pointer]*cell
	syncVC    map[unsafe.Pointer]*vclock
	now       int64 // simulated nanoseconds
	timers    timerHeap
	tseq      uint64
	Stats     Stats
	Events    []string
	evHash    uint64
	swHash    uint64
	envSeed   uint64
	env       *Source
	killAt    map[int]uint64 // task id -> step
	pointKill map[int]int    // task id -> remaining points before it is killed
	OnKill    func(*Task)
	accessLog bool
	quiet     int
	switches  uint64
	stalledBy map[int]bool
}

type Stats struct {
	Steps, Switches, Preempts, Stalls, Kills, Spawns, SyncOps, MemAcc, TimeNS uint64
	MaxOp                                                                     uint64 // longest single operation, in steps
	Probes                                                                    map[string]uint64
}

var S *Sim // the running simulation; nil outside a run

// resets re-initialise package level variables of the code under test.
var resets []func()

func OnReset(f func()) { resets = append(resets, f) }

// Run executes main as task 0 under the given source and configuration.
func Run(src *Source, cfg Config, main func(s *Sim)) (s *Sim) {
	s = &Sim{Src: src, Cfg: cfg,
		chans: map[unsafe.Pointer]*chanState{}, shadow: map[unsafe.Pointer]*cell{}, syncVC: map[unsafe.Pointer]*vclock{},
		killAt: map[int]uint64{}, pointKill: map[int]int{},
	}
	s.Stats.Probes = map[string]uint64{}
	if s.Cfg.MaxSteps == 0 {
		s.Cfg.MaxSteps = 2_000_000
	}
	if s.Cfg.MaxOp == 0 {
		s.Cfg.MaxOp = 3_000_000
	}
	s.envSeed = uint64(src.Intn(1 << 30))
	s.env = NewSource(s.envSeed)
	S = s
	defer func() { S = nil }()
	for _, r := range resets {
		r()
	}
	s.budget = s.newBudget()
	t := s.spawn("main", func() { main(s) })
	t.vc.tick(0)
	defer s.release()
	s.loop()
	s.Stats.Steps = s.steps
	s.Stats.Switches = s.switches
	s.Stats.TimeNS = uint64(s.now)
	return s
}

func (s *Sim) Violation() *Violation { return s.viol }
func (s *Sim) EventHash() uint64     { return s.evHash }
func (s *Sim) ScheduleHash() uint64  { return s.swHash }
func (s *Sim) Step() uint64          { return s.steps }
func (s *Sim) Cur() *Task            { return s.cur }
func (s *Sim) Tasks() []*Task        { return s.tasks }

func (s *Sim) newBudget() uint32 {
	if s.Cfg.MeanGap <= 0 {
		return 0
	}
	return s.Src.gap(s.Cfg.MeanGap)
}

func (s *Sim) spawn(name string, f func()) *Task {
	t := &Task{ID: len(s.tasks), Name: name}
	if s.cur != nil {
		t.vc = s.cur.vc.clone()
		s.cur.vc.tick(s.cur.ID)
	}
	t.vc.tick(t.ID)
	s.tasks = append(s.tasks, t)
	s.nalive++
	s.Stats.Spawns++
	seq := func(yield func(struct{}) bool) {
		t.yield = yield
		defer func() {
			if r := recover(); r != nil {
				t.Panic = r
				buf := make([]byte, 6000)
				n := runtime.Stack(buf, false)
				t.Trace = trimTrace(string(buf[:n]))
			}
			t.state = done
			t.gone = true
			s.nalive--
		}()
		f()
	}
	t.next, t.stop = iter.Pull(iter.Seq[struct{}](seq))
	return t
}

func trimTrace(tr string) string {
	lines := strings.Split(tr, "\n")
	var out []string
	for i := 0; i+1 < len(lines); i += 1 {
		l := lines[i]
		if strings.Contains(l, "data-structures") && !strings.HasPrefix(l, "\t") {
			if p := strings.LastIndex(l, "("); p > 0 {
				l = l[:p]
			}
			out = append(out, l)
			if len(out) >= 6 {
				break
			}
		}
	}
	return strings.Join(out, " < ")
}

// Spawn starts a client task of the harness.
func (s *Sim) Spawn(name string, f func()) *Task { return s.spawn(name, f) }

// Go is the replacement of the go statement in instrumented code.
func Go(f func()) {
	s := S
	if s == nil {
		panic("simrt: go statement outside of a simulation")
	}
	if len(s.tasks) >= 10000 {
		s.Fail("no-progress", "more than %d goroutines were started", len(s.tasks))
	}
	t := s.spawn("go", f)
	t.Name = fmt.Sprintf("go%d", t.ID)
	t.Daemon = true
	s.syncPoint()
}

func (s *Sim) Violate(class, format string, args ...any) {
	if s.viol == nil {
		// the description may run instrumented code, which must not be scheduled
		cur := s.cur
		s.cur = nil
		msg := noAddresses(fmt.Sprintf(format, args...))
		s.cur = cur
		s.viol = &Violation{class, msg}
		s.Logf("VIOLATION %s: %s", class, s.viol.Msg)
	}
}

var address = regexp.MustCompile(`0x[0-9a-f]{6,}`)

// noAddresses blanks out memory addresses, which differ between processes and
// get into descriptions when the code under test prints its own pointers.
func noAddresses(msg string) string {
	if !strings.Contains(msg, "0x") {
		return msg
	}
	return address.ReplaceAllString(msg, "0x..")
}

// Fail records a violation and ends the run from inside a task.
func (s *Sim) Fail(class, format string, args ...any) {
	s.Violate(class, format, args...)
	if s.cur != nil {
		s.park() // never resumed: the loop stops on a violation
	}
}

// Logf adds an event to the run's history. It draws nothing.
func (s *Sim) Logf(format string, args ...any) {
	h := s.evHash
	msg := noAddresses(fmt.Sprintf(format, args...))
	for i := 0; i < len(msg); i++ {
		h = (h ^ uint64(msg[i])) * 1099511628211
	}
	s.evHash = h*31 + s.steps
	if s.Cfg.Trace {
		id := -1
		nm := "-"
		if s.cur != nil {
			id, nm = s.cur.ID, s.cur.Name
		}
		if len(s.Events) < 5000 {
			s.Events = append(s.Events, fmt.Sprintf("%06d t%d/%s %s", s.steps, id, nm, msg))
		}
	}
}

func (s *Sim) Probe(name string) { s.Stats.Probes[name]++ }

// park returns control to the scheduler loop.
func (s *Sim) park() {
	t := s.cur
	if !t.yield(struct{}{}) {
		runtime.Goexit() // the run is over: unwind (see release)
	}
	s.cur = t
}

// release unwinds the coroutines still parked when a run ends. The deferred
// functions they run can no longer influence the (finished) run.
func (s *Sim) release() {
	S = nil
	for _, t := range s.tasks {
		if t.gone {
			continue
		}
		s.cur = t
		end := make(chan struct{})
		go func() {
			defer close(end)
			defer func() { recover() }()
			t.stop()
		}()
		<-end
	}
}

// Block suspends the current task until ready() holds.
func (s *Sim) Block(why string, ready func() bool) {
	t := s.cur
	if t == nil {
		panic("simrt: blocking operation outside of a task: " + why)
	}
	t.state = blocked
	t.ready = ready
	t.why = why
	for t.state == blocked {
		s.park()
	}
	t.ready, t.why = nil, ""
}

// BlockAtomic blocks unless ready holds already.
func (s *Sim) WaitUntil(why string, ready func() bool) {
	if ready() {
		return
	}
	s.Block(why, ready)
}

// point is called at every statement / memory access of instrumented code.
func (s *Sim) point() {
	s.steps++
	if s.steps >= s.Cfg.MaxSteps {
		s.livelock()
		return
	}
	t := s.cur
	t.op++
	if t.op >= s.Cfg.MaxOp {
		s.stuck()
		return
	}
	if len(s.pointKill) > 0 {
		s.maybeKill(t)
	}
	if s.budget == 0 {
		return
	}
	s.budget--
	if s.budget != 0 {
		return
	}
	s.budget = s.newBudget()
	if t.inSync > 0 || s.quiet > 0 {
		return
	}
	s.preempt()
}

// Progress notes that the current task is back in the harness, so that the
// operation before has ended.
func (s *Sim) Progress() {
	if t := s.cur; t != nil {
		if t.op > s.Stats.MaxOp {
			s.Stats.MaxOp = t.op
		}
		t.op = 0
		t.touch = false
	}
}

// stuck: one operation takes more steps than any terminating one should. It
// also stops a runaway recursion before it exhausts the real stack.
func (s *Sim) stuck() {
	s.Fail("no-progress", "an operation of task %s takes more than %d simulated steps", s.cur.Name, s.Cfg.MaxOp)
}

func (s *Sim) livelock() {
	s.Fail("no-progress", "no completion within %d simulated steps (task %s still running)", s.Cfg.MaxSteps, s.cur.Name)
}

func (s *Sim) maybeKill(t *Task) {
	n, ok := s.pointKill[t.ID]
	if !ok || t.inSync > 0 || t.held > 0 || t.touch {
		return
	}
	if n > 0 {
		s.pointKill[t.ID] = n - 1
		return
	}
	delete(s.pointKill, t.ID)
	s.Kill(t)
}

// Kill crashes a task: it never runs again and none of its deferred functions run.
func (s *Sim) Kill(t *Task) {
	if t.state == done {
		return
	}
	t.Killed = true
	t.state = done
	s.nalive--
	s.Stats.Kills++
	s.Logf("FAULT kill t%d/%s", t.ID, t.Name)
	if s.OnKill != nil {
		s.OnKill(t)
	}
	if t == s.cur {
		s.park()
	}
}

// KillAfter arranges for t to be killed after n further points of its own.
func (s *Sim) KillAfter(t *Task, n int) { s.pointKill[t.ID] = n }
func (s *Sim) CancelKill(t *Task)       { delete(s.pointKill, t.ID) }

func (s *Sim) syncPoint() {
	if s.cur == nil {
		return
	}
	s.Stats.SyncOps++
	s.steps++
	if s.steps >= s.Cfg.MaxSteps {
		s.livelock()
		return
	}
	if len(s.pointKill) > 0 {
		s.maybeKill(s.cur)
	}
	if s.cur.inSync > 0 || s.quiet > 0 || s.nalive < 2 {
		return
	}
	if s.Cfg.SyncOneIn > 0 && s.Src.OneIn(s.Cfg.SyncOneIn) {
		s.preempt()
	}
}

func (s *Sim) preempt() {
	if s.nalive < 2 {
		return
	}
	s.Stats.Preempts++
	if s.Cfg.StallOneIn > 0 && s.Src.OneIn(s.Cfg.StallOneIn) {
		s.cur.stall = s.steps + uint64(1+s.Src.Intn(s.Cfg.StallLen+1))
		s.Stats.Stalls++
		s.Logf("FAULT stall")
	}
	s.park()
}

// Quiet suspends preemption (setup phases, oracle sections).
func (s *Sim) Quiet(f func()) {
	s.quiet++
	f()
	s.quiet--
}

// Atomic runs f on the current task without preemption and without race
// recording: used by the harness' own bookkeeping over shared structures.
func (s *Sim) loop() {
	cand := make([]*Task, 0, 16)
	for s.viol == nil {
		cand = cand[:0]
		stalled := 0
		var firstStalled *Task
		for _, t := range s.tasks {
			if t.state == blocked && t.ready != nil && t.ready() {
				t.state = runnable
			}
			if t.state == runnable {
				if t.stall > s.steps {
					stalled++
					if firstStalled == nil || t.stall < firstStalled.stall {
						firstStalled = t
					}
					continue
				}
				cand = append(cand, t)
			}
		}
		if len(cand) == 0 && firstStalled != nil {
			firstStalled.stall = 0
			cand = append(cand, firstStalled)
		}
		if len(cand) == 0 {
			if s.advanceTime() {
				continue
			}
			s.checkDeadlock()
			return
		}
		var t *Task
		if len(cand) == 1 {
			t = cand[0]
		} else {
			// 0: the task that ran last if it can continue, else the oldest.
			base := 0
			for i, c := range cand {
				if c == s.cur {
					base = i
				}
			}
			i := s.Src.Intn(len(cand))
			t = cand[(base+i)%len(cand)]
		}
		if t != s.cur {
			s.switches++
			s.swHash = (s.swHash ^ uint64(t.ID+1)) * 1099511628211
			s.swHash = (s.swHash ^ s.steps) * 1099511628211
		}
		s.cur = t
		t.next()
		if t.state == done && t.Panic != nil && !t.Killed {
			s.cur = nil // describing the panic may run instrumented code
			if t.Daemon {
				s.Violate("panic", "a background task of the code under test panicked: %v [%s]", t.Panic, t.Trace)
			} else if he, ok := t.Panic.(harnessError); ok {
				panic(string(he))
			} else {
				s.Violate("panic", "client task %s panicked: %v [%s]", t.Name, t.Panic, t.Trace)
			}
		}
	}
}

type harnessError string

func (s *Sim) checkDeadlock() {
	var stuck []string
	for _, t := range s.tasks {
		if t.state == blocked && !t.Daemon {
			stuck = append(stuck, fmt.Sprintf("%s waiting for %s", t.Name, t.why))
		}
	}
	if len(stuck) > 0 {
		for _, t := range s.tasks {
			if t.state == blocked && t.Daemon {
				stuck = append(stuck, fmt.Sprintf("(%s waiting for %s)", t.Name, t.why))
			}
		}
		s.Violate("deadlock", "no task can run: %s", strings.Join(stuck, "; "))
	}
}

// Join waits for tasks to finish (or be killed).
func (s *Sim) Join(ts ...*Task) {
	s.WaitUntil("join", func() bool {
		for _, t := range ts {
			if t.state != done {
				return false
			}
		}
		return true
	})
	for _, t := range ts {
		s.cur.vc.join(t.vc)
	}
}

// Yield is inserted by the instrumenter at function entries, loop bodies and
// (at the coarse level) before statements.
func Yield() {
	if s := S; s != nil && s.cur != nil {
		s.point()
	}
}

// EnvRand draws from the environment stream (stub for OS randomness). It is a
// pure function of the run's recorded environment seed.
func EnvRand() uint64 {
	if S == nil {
		return 0
	}
	return S.env.next()
}

// Stack replaces runtime.Stack: a real trace would depend on addresses and on
// leaked coroutines; its content is not part of any property.
func Stack(buf []byte, all bool) int {
	return copy(buf, "goroutine 1 [running]:\nsimulated stack\n")
}

func Gosched() {
	if s := S; s != nil && s.cur != nil {
		s.syncPoint()
	}
}

func NumCPU() int          { return 4 }
func GOMAXPROCS(n int) int { return 4 }
func NumGoroutine() int {
	n := 0
	for _, t := range S.tasks {
		if t.state != done {
			n++
		}
	}
	return n
}
