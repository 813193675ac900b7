// Command dst decides properties by deterministic simulation: it executes the
// instrumented repository under the simulator for many seeds, checks the
// oracles and, on a violation, minimises the choice sequence and writes a
// replay file.
package main

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"verif.local/sim/simrt"
)

type Replay struct {
	Property  string   `json:"property"`
	Scenario  string   `json:"scenario"`
	Seed      uint64   `json:"seed"`
	BaseSeed  uint64   `json:"base_seed"`
	Index     uint64   `json:"index"`
	Tier      string   `json:"tier"`
	Class     string   `json:"class"`
	Message   string   `json:"message"`
	EventHash string   `json:"event_hash"`
	Original  int      `json:"original_choices"`
	Choices   []uint32 `json:"choices"`
	Trace     []string `json:"trace"`
}

type wres struct {
	Prop      string            `json:"prop"`
	Runs      uint64            `json:"runs"`
	Steps     uint64            `json:"steps"`
	MaxOp     uint64            `json:"max_op"`
	MaxSteps  uint64            `json:"max_steps"`
	Switches  uint64            `json:"switches"`
	Preempts  uint64            `json:"preempts"`
	SyncOps   uint64            `json:"sync_ops"`
	MemAcc    uint64            `json:"mem_acc"`
	TimeNS    uint64            `json:"time_ns"`
	Tasks     uint64            `json:"tasks"`
	Nontriv   uint64            `json:"nontrivial"`
	FaultRuns uint64            `json:"fault_runs"`
	Faults    map[string]uint64 `json:"faults"`
	Probes    map[string]uint64 `json:"probes"`
	PerScen   map[string]uint64 `json:"per_scenario"`
	Viols     []*vrec           `json:"viols"`
	NViol     uint64            `json:"nviol"`
	Errors    []string          `json:"errors"`
	Known     map[string]uint64 `json:"known"`
	TimedOut  bool              `json:"timed_out"`
}

type vrec struct {
	Scenario string `json:"scenario"`
	Index    uint64 `json:"index"`
	Seed     uint64 `json:"seed"`
	Class    string `json:"class"`
	Msg      string `json:"msg"`
}

func main() {
	log.SetOutput(io.Discard)
	loadSites()
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: dst run|worker|replay|show|hashes|list ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "list":
		for _, p := range props() {
			for _, s := range scenariosOf(p) {
				fmt.Println(p, s.Name, s.Weight)
			}
		}
	case "worker":
		worker(os.Args[2:])
	case "run":
		os.Exit(orchestrate(os.Args[2:]))
	case "replay":
		os.Exit(replayCmd(os.Args[2:]))
	case "show":
		show(os.Args[2:])
	case "hashes":
		hashesCmd(os.Args[2:])
	default:
		fmt.Fprintln(os.Stderr, "unknown command", os.Args[1])
		os.Exit(2)
	}
}

func loadSites() {
	f := os.Getenv("DST_SITES")
	if f == "" {
		if e, err := os.Executable(); err == nil {
			f = filepath.Join(filepath.Dir(e), "sites.txt")
		}
	}
	b, err := os.ReadFile(f)
	if err != nil {
		return
	}
	names := strings.Split(string(b), "\n")
	simrt.SiteName = func(id int32) string {
		if id == -1 {
			return "the caller"
		}
		if int(id) >= 1 && int(id) <= len(names) {
			return names[id-1]
		}
		return fmt.Sprintf("site %d", id)
	}
}

// schedule of scenarios for run index i
func pickScenario(scs []*Scenario, i uint64) (*Scenario, uint64) {
	total := 0
	for _, s := range scs {
		total += s.Weight
	}
	r := int(i % uint64(total))
	round := i / uint64(total)
	for _, s := range scs {
		if r < s.Weight {
			return s, round*uint64(s.Weight) + uint64(r)
		}
		r -= s.Weight
	}
	panic("unreachable")
}

func worker(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	from := fs.Uint64("from", 0, "")
	to := fs.Uint64("to", 0, "")
	step := fs.Uint64("step", 1, "")
	base := fs.Uint64("seed", 1, "")
	big := fs.Bool("big", false, "")
	hashFile := fs.String("hashes", "", "")
	deadline := fs.Float64("deadline", 0, "seconds")
	maxViol := fs.Int("maxviol", 40, "")
	only := fs.String("scenario", "", "")
	known := fs.String("known", "", "")
	stop := fs.Uint64("stop", 10, "stop after this many violations")
	fs.Parse(args)
	findings, err := loadFindings(*known)
	if err != nil {
		fatal(err)
	}
	debug.SetGCPercent(400)
	scs := scenariosOf(*prop)
	if *only != "" {
		scs = []*Scenario{scenarioByName(*prop, *only)}
	}
	start := time.Now()
	r := &wres{Prop: *prop, Faults: map[string]uint64{}, Probes: map[string]uint64{}, PerScen: map[string]uint64{}, Known: map[string]uint64{}}
	var hw *bufio.Writer
	if *hashFile != "" {
		f, err := os.Create(*hashFile)
		if err != nil {
			fatal(err)
		}
		hw = bufio.NewWriter(f)
		defer f.Close()
		defer hw.Flush()
	}
	// progress watch: a run that never reaches a simulation point cannot be
	// interrupted from inside; report it as an error of the check.
	cur := make(chan string, 1)
	go watchdog(cur)
	for i := *from; i < *to; i += *step {
		if *deadline > 0 && time.Since(start).Seconds() > *deadline {
			r.TimedOut = true
			break
		}
		sc, idx := pickScenario(scs, i)
		seed := runSeed(*base, *prop, sc.Name, idx)
		beat(cur, fmt.Sprintf("%s/%s seed=%d", *prop, sc.Name, seed))
		res := execute(sc, simrt.NewSource(seed), *big, false)
		if res.HarnessErr != "" {
			r.Errors = append(r.Errors, fmt.Sprintf("%s/%s index=%d seed=%d: %s", *prop, sc.Name, idx, seed, res.HarnessErr))
			break
		}
		r.Runs++
		r.PerScen[sc.Name]++
		r.Steps += res.Stats.Steps
		r.MaxOp = max(r.MaxOp, res.Stats.MaxOp)
		r.MaxSteps = max(r.MaxSteps, res.Stats.Steps)
		r.Switches += res.Stats.Switches
		r.Preempts += res.Stats.Preempts
		r.SyncOps += res.Stats.SyncOps
		r.MemAcc += res.Stats.MemAcc
		r.TimeNS += res.Stats.TimeNS
		r.Tasks += uint64(res.Tasks)
		nf := uint64(0)
		for k, v := range res.Fault {
			r.Faults[k] += v
			nf += v
		}
		if nf > 0 {
			r.FaultRuns++
		}
		for k, v := range res.Stats.Probes {
			r.Probes[k] += v
		}
		if res.Stats.Preempts > 0 || nf > 0 {
			r.Nontriv++
			if hw != nil {
				var b [16]byte
				binary.LittleEndian.PutUint64(b[:8], mix(res.EvHash, res.SwHash))
				binary.LittleEndian.PutUint64(b[8:], res.SwHash)
				hw.Write(b[:])
			}
		}
		if res.Viol != nil {
			isKnown := false
			for _, f := range findings {
				if f.matches(*prop, sc.Name, res.Viol.Class, res.Viol.Msg) {
					r.Known[f.what]++
					isKnown = true
					break
				}
			}
			if isKnown {
				continue
			}
			r.NViol++
			if len(r.Viols) < *maxViol {
				r.Viols = append(r.Viols, &vrec{sc.Name, idx, seed, res.Viol.Class, res.Viol.Msg})
			}
			if r.NViol >= *stop {
				break
			}
		}
	}
	json.NewEncoder(os.Stdout).Encode(r)
}

func beat(c chan string, s string) {
	select {
	case <-c:
	default:
	}
	c <- s
}

func watchdog(c chan string) {
	last := ""
	n := 0
	for {
		time.Sleep(2 * time.Second)
		select {
		case s := <-c:
			select {
			case c <- s:
			default:
			}
			if s == last {
				n++
			} else {
				n = 0
				last = s
			}
		default:
		}
		if n >= 60 {
			fmt.Fprintf(os.Stderr, "dst: watchdog: run %s makes no progress in real time\n", last)
			os.Exit(3)
		}
	}
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "dst:", err)
	os.Exit(2)
}

// ------------------------------------------------------------ minimisation

func sameClass(sc *Scenario, choices []uint32, big bool, class string) bool {
	r := execute(sc, simrt.NewReplay(choices), big, false)
	return r.HarnessErr == "" && r.Viol != nil && r.Viol.Class == class
}

func trimZeros(c []uint32) []uint32 {
	n := len(c)
	for n > 0 && c[n-1] == 0 {
		n--
	}
	return c[:n]
}

func minimise(sc *Scenario, choices []uint32, big bool, class string, budget time.Duration) []uint32 {
	end := time.Now().Add(budget)
	best := trimZeros(append([]uint32(nil), choices...))
	if !sameClass(sc, best, big, class) {
		return choices
	}
	try := func(c []uint32) bool {
		c = trimZeros(c)
		if time.Now().After(end) {
			return false
		}
		if sameClass(sc, c, big, class) {
			best = append([]uint32(nil), c...)
			return true
		}
		return false
	}
	// shortest failing prefix
	lo, hi := 0, len(best)
	for lo < hi && time.Now().Before(end) {
		m := (lo + hi) / 2
		if sameClass(sc, best[:m], big, class) {
			hi = m
		} else {
			lo = m + 1
		}
	}
	if hi < len(best) {
		try(best[:hi])
	}
	for changed := true; changed && time.Now().Before(end); {
		changed = false
		// delete blocks
		for size := len(best) / 2; size >= 1; size /= 2 {
			for i := 0; i+size <= len(best); {
				c := append(append([]uint32(nil), best[:i]...), best[i+size:]...)
				if try(c) {
					changed = true
				} else {
					i += size
				}
				if time.Now().After(end) {
					return best
				}
			}
		}
		// zero blocks, then single values, then lower values
		for size := len(best) / 2; size >= 1; size /= 2 {
			for i := 0; i+size <= len(best); i += size {
				c := append([]uint32(nil), best...)
				any := false
				for j := i; j < i+size; j++ {
					if c[j] != 0 {
						any = true
					}
					c[j] = 0
				}
				if any && try(c) {
					changed = true
				}
				if time.Now().After(end) {
					return best
				}
			}
		}
		for i := 0; i < len(best); i++ {
			for i < len(best) && best[i] > 0 {
				v := best[i] / 2
				c := append([]uint32(nil), best...)
				c[i] = v
				if !try(c) {
					break
				}
				changed = true
			}
			if i < len(best) && best[i] > 1 {
				c := append([]uint32(nil), best...)
				c[i]--
				if try(c) {
					changed = true
				}
			}
		}
	}
	return best
}

// ------------------------------------------------------------ known findings

type finding struct {
	prop, scenario, class, what string
	re                          *regexp.Regexp
}

// loadFindings reads lines "known: property=.. scenario=.. class=.. match=<regexp, ~ for blank> :: what".
func loadFindings(path string) ([]finding, error) {
	b, err := os.ReadFile(path)
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	var out []finding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known:") {
			continue
		}
		head, what, _ := strings.Cut(strings.TrimPrefix(l, "known:"), "::")
		f := finding{what: strings.TrimSpace(what)}
		for _, kv := range strings.Fields(head) {
			k, v, _ := strings.Cut(kv, "=")
			v = strings.ReplaceAll(v, "~", " ")
			switch k {
			case "property":
				f.prop = v
			case "scenario":
				f.scenario = v
			case "class":
				f.class = v
			case "match":
				re, err := regexp.Compile(v)
				if err != nil {
					return nil, err
				}
				f.re = re
			}
		}
		out = append(out, f)
	}
	return out, nil
}

func (f finding) matches(prop, scen, class, msg string) bool {
	return f.prop == prop && (f.scenario == scen) && (f.class == class) && f.re != nil && f.re.MatchString(msg)
}

// ------------------------------------------------------------ orchestration

type tierPlan struct {
	Runs    uint64
	Seconds float64
}

func orchestrate(args []string) int {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	workers := fs.Int("workers", 8, "")
	evidence := fs.String("evidence", "", "")
	outDir := fs.String("out", "", "")
	known := fs.String("known", "", "")
	runs := fs.Uint64("runs", 0, "")
	secs := fs.Float64("seconds", 0, "")
	level := fs.String("instr-level", "?", "")
	scen := fs.String("scenario", "", "")
	first := fs.Bool("first", false, "stop at the first violation and do not minimise it")
	fs.Parse(args)
	scs := scenariosOf(*prop)
	if len(scs) == 0 {
		fmt.Fprintln(os.Stderr, "dst: no scenarios for", *prop)
		return 2
	}
	start := time.Now()
	plan := planFor(*prop, *tier)
	if *runs > 0 {
		plan.Runs = *runs
	}
	if *secs > 0 {
		plan.Seconds = *secs
	}
	big := *tier == "thorough"
	self, _ := os.Executable()
	tmp, err := os.MkdirTemp("", "dst-run-")
	if err != nil {
		fmt.Fprintln(os.Stderr, "dst:", err)
		return 2
	}
	defer os.RemoveAll(tmp)
	type wout struct {
		r   *wres
		err error
		msg string
	}
	ch := make(chan wout, *workers)
	for w := 0; w < *workers; w++ {
		go func(w int) {
			a := []string{"worker", "-prop", *prop, "-from", fmt.Sprint(w), "-to", fmt.Sprint(plan.Runs), "-step", fmt.Sprint(*workers),
				"-seed", fmt.Sprint(*seed), "-hashes", filepath.Join(tmp, fmt.Sprintf("h%d", w)), "-deadline", fmt.Sprint(plan.Seconds), "-known", *known}
			if big {
				a = append(a, "-big")
			}
			if *scen != "" {
				a = append(a, "-scenario", *scen)
			}
			if *first {
				a = append(a, "-stop", "1")
			}
			c := exec.Command(self, a...)
			c.Env = append(os.Environ(), "GOMAXPROCS=2")
			var eb strings.Builder
			c.Stderr = &eb
			b, err := c.Output()
			if err != nil {
				ch <- wout{nil, err, tail(eb.String(), 4000)}
				return
			}
			r := &wres{}
			if e := json.Unmarshal(b, r); e != nil {
				ch <- wout{nil, e, tail(eb.String(), 4000)}
				return
			}
			ch <- wout{r, nil, ""}
		}(w)
	}
	tot := &wres{Prop: *prop, Faults: map[string]uint64{}, Probes: map[string]uint64{}, PerScen: map[string]uint64{}, Known: map[string]uint64{}}
	bad := false
	for w := 0; w < *workers; w++ {
		o := <-ch
		if o.err != nil {
			fmt.Fprintf(os.Stderr, "dst: worker failed: %v\n%s\n", o.err, o.msg)
			bad = true
			continue
		}
		r := o.r
		tot.Runs += r.Runs
		tot.Steps += r.Steps
		tot.MaxOp = max(tot.MaxOp, r.MaxOp)
		tot.MaxSteps = max(tot.MaxSteps, r.MaxSteps)
		tot.Switches += r.Switches
		tot.Preempts += r.Preempts
		tot.SyncOps += r.SyncOps
		tot.MemAcc += r.MemAcc
		tot.TimeNS += r.TimeNS
		tot.Tasks += r.Tasks
		tot.Nontriv += r.Nontriv
		tot.FaultRuns += r.FaultRuns
		tot.NViol += r.NViol
		tot.TimedOut = tot.TimedOut || r.TimedOut
		addMap(tot.Faults, r.Faults)
		addMap(tot.Probes, r.Probes)
		addMap(tot.PerScen, r.PerScen)
		addMap(tot.Known, r.Known)
		tot.Viols = append(tot.Viols, r.Viols...)
		tot.Errors = append(tot.Errors, r.Errors...)
	}
	for _, e := range tot.Errors {
		fmt.Fprintln(os.Stderr, "dst: error:", e)
		bad = true
	}
	distinct, distinctSched := distinctHashes(tmp, *workers)
	searchWall := time.Since(start).Seconds()

	// classify violations
	sort.SliceStable(tot.Viols, func(i, j int) bool {
		a, b := tot.Viols[i], tot.Viols[j]
		if a.Scenario != b.Scenario {
			return a.Scenario < b.Scenario
		}
		return a.Index < b.Index
	})
	fresh := tot.Viols
	var kn []string
	for w := range tot.Known {
		kn = append(kn, w)
	}
	sort.Strings(kn)
	for _, w := range kn {
		fmt.Printf("KNOWN-FINDING: property=%s %s (in %d of %d runs)\n", *prop, w, tot.Known[w], tot.Runs)
	}
	var replays []string
	vio := []map[string]any{}
	done := map[string]bool{}
	failed := 0
	for _, v := range fresh {
		key := v.Scenario + "/" + v.Class
		if done[key] || len(replays) >= 3 {
			continue
		}
		path, rp, err := makeReplay(*prop, *tier, *seed, v, big, *outDir, !*first)
		if err != nil {
			fmt.Fprintln(os.Stderr, "dst:", err)
			bad = true
			if failed++; failed >= 6 {
				break
			}
			continue
		}
		done[key] = true
		replays = append(replays, path)
		vio = append(vio, map[string]any{"scenario": v.Scenario, "class": v.Class, "message": rp.Message, "seed": v.Seed, "index": v.Index, "replay": path, "choices": len(rp.Choices), "original_choices": rp.Original})
	}
	wall := time.Since(start).Seconds()
	if *evidence != "" {
		if err := writeEvidence(*evidence, *prop, *tier, *seed, tot, distinct, distinctSched, searchWall, wall, vio, kn, *level, scs); err != nil {
			fmt.Fprintln(os.Stderr, "dst:", err)
			bad = true
		}
	}
	fmt.Printf("%s %s: %d runs (%d with preemptions or faults, %d distinct), %d steps, %d switches, longest run %d and operation %d steps, %.1fs\n", *prop, *tier, tot.Runs, tot.Nontriv, distinct, tot.Steps, tot.Switches, tot.MaxSteps, tot.MaxOp, wall)
	for i, p := range replays {
		fmt.Printf("  %s\n", vio[i]["message"])
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, p)
	}
	if len(replays) > 0 {
		return 1
	}
	if bad || tot.Runs == 0 {
		return 2
	}
	return 0
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n/2] + "\n...\n" + s[len(s)-n/2:]
	}
	return s
}

func addMap(d, s map[string]uint64) {
	for k, v := range s {
		d[k] += v
	}
}

func distinctHashes(dir string, n int) (int, int) {
	m := map[uint64]bool{}
	sw := map[uint64]bool{}
	for w := 0; w < n; w++ {
		b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("h%d", w)))
		if err != nil {
			continue
		}
		for i := 0; i+16 <= len(b); i += 16 {
			m[binary.LittleEndian.Uint64(b[i:])] = true
			sw[binary.LittleEndian.Uint64(b[i+8:])] = true
		}
	}
	return len(m), len(sw)
}

func makeReplay(prop, tier string, base uint64, v *vrec, big bool, outDir string, min bool) (string, *Replay, error) {
	sc := scenarioByName(prop, v.Scenario)
	r := execute(sc, simrt.NewSource(v.Seed), big, false)
	if r.Viol == nil || r.Viol.Class != v.Class {
		return "", nil, fmt.Errorf("seed %d of %s/%s did not reproduce in this process", v.Seed, prop, v.Scenario)
	}
	orig := len(r.Choices)
	ch := r.Choices
	if min {
		ch = minimise(sc, ch, big, v.Class, 12*time.Second)
	}
	f := execute(sc, simrt.NewReplay(ch), big, true)
	if f.Viol == nil || f.Viol.Class != v.Class {
		ch = r.Choices
		f = execute(sc, simrt.NewReplay(ch), big, true)
	}
	rp := &Replay{Property: prop, Scenario: v.Scenario, Seed: v.Seed, BaseSeed: base, Index: v.Index, Tier: tier,
		Class: v.Class, Message: f.Viol.Msg, EventHash: fmt.Sprintf("%016x", f.EvHash), Original: orig, Choices: ch, Trace: f.Events}
	if outDir == "" {
		outDir = "."
	}
	if err := os.MkdirAll(outDir, 0o755); err != nil {
		return "", nil, err
	}
	path := filepath.Join(outDir, fmt.Sprintf("%s-%s-%s-%d.json", prop, v.Scenario, v.Class, v.Seed))
	b, _ := json.MarshalIndent(rp, "", " ")
	if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
		return "", nil, err
	}
	// the replay must reproduce in a fresh process
	self, _ := os.Executable()
	c := exec.Command(self, "replay", path)
	out, _ := c.CombinedOutput()
	if c.ProcessState == nil || c.ProcessState.ExitCode() != 1 {
		return "", nil, fmt.Errorf("replay %s did not reproduce in a fresh process: %s", path, tail(string(out), 1000))
	}
	return path, rp, nil
}

func replayCmd(args []string) int {
	quiet := len(args) > 1 && args[1] == "-q"
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, "dst:", err)
		return 2
	}
	rp := &Replay{}
	if err := json.Unmarshal(b, rp); err != nil {
		fmt.Fprintln(os.Stderr, "dst:", err)
		return 2
	}
	sc := scenarioByName(rp.Property, rp.Scenario)
	if sc == nil {
		fmt.Fprintln(os.Stderr, "dst: unknown scenario")
		return 2
	}
	r := execute(sc, simrt.NewReplay(rp.Choices), rp.Tier == "thorough", true)
	if r.HarnessErr != "" {
		fmt.Fprintln(os.Stderr, "dst:", r.HarnessErr)
		return 2
	}
	if !quiet {
		for _, e := range r.Events {
			fmt.Println(e)
		}
	}
	if r.Viol == nil {
		fmt.Println("replay: no violation on this tree")
		return 0
	}
	h := fmt.Sprintf("%016x", r.EvHash)
	fmt.Printf("replay: %s: %s\n", r.Viol.Class, r.Viol.Msg)
	if h != rp.EventHash {
		fmt.Printf("replay: event hash %s differs from recorded %s (the tree differs from the one recorded)\n", h, rp.EventHash)
		return 4
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", rp.Property, args[0])
	return 1
}

func show(args []string) {
	prop, scen := args[0], args[1]
	seed, _ := strconv.ParseUint(args[2], 10, 64)
	sc := scenarioByName(prop, scen)
	r := execute(sc, simrt.NewSource(seed), len(args) > 3, true)
	for _, e := range r.Events {
		fmt.Println(e)
	}
	fmt.Printf("steps=%d switches=%d choices=%d tasks=%d err=%q viol=%v\n", r.Stats.Steps, r.Stats.Switches, len(r.Choices), r.Tasks, r.HarnessErr, r.Viol)
}

// hashes prints the full-history hash of runs from..to, for determinism proofs.
func hashesCmd(args []string) {
	fs := flag.NewFlagSet("hashes", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	from := fs.Uint64("from", 0, "")
	to := fs.Uint64("to", 0, "")
	step := fs.Uint64("step", 1, "")
	base := fs.Uint64("seed", 1, "")
	rev := fs.Bool("reverse", false, "")
	fs.Parse(args)
	scs := scenariosOf(*prop)
	var idx []uint64
	for i := *from; i < *to; i += *step {
		idx = append(idx, i)
	}
	if *rev {
		for a, b := 0, len(idx)-1; a < b; a, b = a+1, b-1 {
			idx[a], idx[b] = idx[b], idx[a]
		}
	}
	for _, i := range idx {
		sc, k := pickScenario(scs, i)
		seed := runSeed(*base, *prop, sc.Name, k)
		r := execute(sc, simrt.NewSource(seed), false, false)
		ch := uint64(0)
		for _, c := range r.Choices {
			ch = mix(ch, uint64(c))
		}
		v := ""
		if r.Viol != nil {
			v = r.Viol.Class
		}
		fmt.Printf("%d %s %d %016x %016x %016x %d %d %s\n", i, sc.Name, seed, r.EvHash, r.SwHash, ch, r.Stats.Steps, r.Stats.MemAcc, v)
	}
}
