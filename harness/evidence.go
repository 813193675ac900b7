package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"

	"verif.local/sim/simrt"
)

func planFor(prop, tier string) tierPlan {
	if tier == "thorough" {
		return tierPlan{Runs: 1 << 40, Seconds: 420}
	}
	if p, ok := quickPlan[prop]; ok {
		return p
	}
	return tierPlan{Runs: 20000, Seconds: 60}
}

// quick tier: a fixed number of runs (so that the explored seeds are a
// function of VERIF_SEED alone); the time limit only guards slow machines.
var quickPlan = map[string]tierPlan{
	"C01": {1200000, 150}, "C02": {1200000, 150}, "C03": {1200000, 150}, "C04": {1200000, 150}, "C05": {1200000, 150},
	"C06": {1500000, 150}, "C07": {800000, 150}, "C08": {2000000, 150}, "C09": {1500000, 150}, "C10": {1500000, 150}, "C11": {300000, 150},
	"C12": {150000, 150}, "C13": {400000, 150}, "C14": {400000, 150}, "C15": {150000, 150}, "C16": {400000, 150}, "C17": {400000, 150},
	"C18": {1200000, 150}, "C19": {500000, 150}, "C20": {500000, 150}, "C24": {400000, 150},
	"C25": {250000, 150}, "C26": {400000, 150}, "C27": {150000, 150}, "C28": {300000, 150}, "C29": {250000, 150},
}

func writeEvidence(path, prop, tier string, seed uint64, t *wres, distinct, distinctSched int, searchWall, wall float64, vio []map[string]any, known []string, level string, scs []*Scenario) error {
	samples := []map[string]any{}
	for _, s := range scs {
		sd := runSeed(seed, prop, s.Name, 0)
		r := execute(s, simrt.NewSource(sd), tier == "thorough", true)
		ev := r.Events
		if len(ev) > 30 {
			ev = append(append([]string(nil), ev[:30]...), fmt.Sprintf("... %d more events", len(r.Events)-30))
		}
		samples = append(samples, map[string]any{"scenario": s.Name, "index": 0, "seed": fmt.Sprint(sd), "choices": len(r.Choices), "steps": r.Stats.Steps, "switches": r.Stats.Switches, "history": ev})
	}
	perHour := 0.0
	if searchWall > 0 {
		perHour = float64(t.Runs) / searchWall * 3600
	}
	ev := map[string]any{
		"property": prop,
		"tier":     tier,
		"seed":     seed,
		"level":    "exploration",
		"wall_s":   wall,
		"coverage": map[string]any{
			"evaluations":             t.Runs,
			"distinct_nontrivial":     distinct,
			"rule":                    "a run counts when at least one preemption or injected fault happened in it; runs are distinct when the 64-bit hash of (every logged operation, result and fault with its step number; every context switch with task and step) differs",
			"samples":                 samples,
			"distinct_schedules":      distinctSched,
			"distinct_schedules_rule": "hash of the sequence of (task, step) at context switches only",
			"nontrivial_runs":         t.Nontriv,
			"runs_per_scenario":       t.PerScen,
			"seeds_per_hour":          perHour,
			"simulated_steps":         t.Steps,
			"longest_run_steps":       t.MaxSteps,
			"longest_operation_steps": t.MaxOp,
			"simulated_time_ns":       t.TimeNS,
			"context_switches":        t.Switches,
			"preemptions":             t.Preempts,
			"synchronisation_ops":     t.SyncOps,
			"tracked_memory_accesses": t.MemAcc,
			"tasks_simulated":         t.Tasks,
			"faults_injected":         t.Faults,
			"runs_with_faults":        t.FaultRuns,
			"probes":                  t.Probes,
			"stopped_by_time_limit":   t.TimedOut,
			"violating_runs":          t.NViol,
			"instrumentation_level":   level,
			"components": map[string]any{
				"real": "all non-test packages of /repo (rewritten at build time from the current working tree), reflect/fmt/encoding from the Go distribution, the Rand and lagged-Fibonacci source of math/rand",
				"stub": "goroutine scheduler, channels, sync, sync/atomic, time, crypto/rand and the global math/rand stream (simulator versions with recorded decisions), runtime.Stack",
			},
		},
		"assumptions": []string{
			"sequentially consistent memory between preemption points; weaker orders are covered by the happens-before race oracle where it is on",
			"preemption points: every synchronisation operation, function entry, loop iteration and access to memory reachable by other tasks",
		},
		"violations":     vio,
		"known_findings": known,
	}
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		return err
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(path, append(b, '\n'), 0o644)
}
