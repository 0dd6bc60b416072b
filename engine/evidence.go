package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

type harnessRun struct {
	Harness       string         `json:"harness"`
	Bounds        string         `json:"bounds"`
	Exhaustive    bool           `json:"exhaustive_within_bounds"`
	Paths         int64          `json:"paths"`
	Completed     int64          `json:"paths_completed"`
	AssumedAway   int64          `json:"paths_ended_by_assumption"`
	Decisions     int64          `json:"symbolic_decisions"`
	Steps         int64          `json:"ssa_instructions"`
	Asserts       int64          `json:"assertions_evaluated"`
	AssertsSolver int64          `json:"assertions_sent_to_solver"`
	Queries       int64          `json:"solver_queries"`
	Sat           int64          `json:"sat"`
	Unsat         int64          `json:"unsat"`
	Unknown       int64          `json:"unknown"`
	CacheHits     int64          `json:"query_cache_hits"`
	SolverS       float64        `json:"solver_s"`
	MaxQueryMs    float64        `json:"longest_query_ms"`
	CrossChecked  int64          `json:"queries_cross_checked_with_cvc5"`
	CrossMismatch int64          `json:"cross_check_disagreements"`
	WallS         float64        `json:"wall_s"`
	Covers        map[string]int `json:"reached,omitempty"`
	Limits        []string       `json:"limits_hit,omitempty"`
	Unsupported   []string       `json:"unsupported,omitempty"`
	EngineErrors  []string       `json:"engine_errors,omitempty"`
	Candidates    []string       `json:"counterexamples,omitempty"`
	Unconfirmed   []string       `json:"counterexamples_not_reproduced,omitempty"`
	Validated     int            `json:"witnesses_validated_natively"`
	Mismatch      int            `json:"witness_mismatches,omitempty"`
	MismatchText  string         `json:"witness_mismatch,omitempty"`
	Vacuous       bool           `json:"vacuous,omitempty"`
	MissingCovers []string       `json:"not_reached,omitempty"`
	funcs         []string
	samples       []*Sample
}

type evidence struct {
	prop, tier string
	seed       int64
	start      time.Time
	runs       []*harnessRun
	notes      []string
	violations int
	known      int
}

func (ev *evidence) note(s string) { ev.notes = append(ev.notes, s) }

func (ev *evidence) add(h *Harness, e *Engine, d time.Duration) *harnessRun {
	r := &harnessRun{
		Harness: h.Name, Bounds: h.Bounds, Paths: e.paths, Completed: e.ended, AssumedAway: e.assumed, Decisions: e.decisions, Steps: e.steps, Asserts: e.asserts,
		AssertsSolver: e.assertsSolver, Queries: e.stats.Queries, Sat: e.stats.SatN, Unsat: e.stats.UnsatN, Unknown: e.stats.UnknownN, CacheHits: e.stats.CacheHits,
		SolverS: float64(e.stats.Nanos) / 1e9, MaxQueryMs: float64(e.stats.MaxNanos) / 1e6, CrossChecked: e.stats.CrossChecked, CrossMismatch: e.stats.CrossMismatch,
		WallS: d.Seconds(), Covers: e.covers, Limits: keysCount(e.limits), Unsupported: keysCount(e.unsupp), EngineErrors: e.panics, Candidates: e.violOrder,
		samples: e.samples,
	}
	for f := range e.funcs {
		r.funcs = append(r.funcs, f)
	}
	r.Exhaustive = len(r.Limits) == 0 && len(r.Unsupported) == 0 && len(r.EngineErrors) == 0
	r.Vacuous = r.Completed == 0 && len(r.Candidates) == 0
	if c := h.Opts["covers"]; c != "" {
		for _, x := range strings.Split(c, ",") {
			x = strings.TrimSpace(x)
			if e.covers[x] == 0 {
				r.MissingCovers = append(r.MissingCovers, x)
			}
		}
	}
	ev.runs = append(ev.runs, r)
	return r
}

func (r *harnessRun) print() {
	fmt.Printf("%s: paths %d completed %d assumed %d decisions %d steps %d asserts %d/%d queries %d (sat %d unsat %d unknown %d cached %d) solver %.1fs max %.0fms wall %.1fs\n",
		r.Harness, r.Paths, r.Completed, r.AssumedAway, r.Decisions, r.Steps, r.AssertsSolver, r.Asserts, r.Queries, r.Sat, r.Unsat, r.Unknown, r.CacheHits, r.SolverS, r.MaxQueryMs, r.WallS)
	for _, x := range []struct {
		n string
		l []string
	}{{"limits", r.Limits}, {"UNSUPPORTED", r.Unsupported}, {"ENGINE ERROR", r.EngineErrors}, {"candidate", r.Candidates}, {"not reached", r.MissingCovers}} {
		for i, s := range x.l {
			if i < 6 {
				fmt.Printf("  %s: %s\n", x.n, tail(s, 300))
			}
		}
	}
	if len(r.Covers) > 0 {
		fmt.Println("  covers:", r.Covers)
	}
	if r.Vacuous {
		fmt.Println("  VACUOUS: no path reached the end")
	}
}

var stubNotes = []string{
	"go/ssa from golang.org/x/tools gives the meaning of the Go source; the executor of /verif/engine implements it (validated by native replay of path witnesses on every run)",
	"z3 decides the queries (a sample is cross-checked with cvc5 in the thorough tier); every satisfying assignment is re-evaluated and every counterexample replayed on the native build",
	"logging (logrus) and printing have no effect on behaviour",
	"goroutines, locks, atomics, channels, clock, files and network of the root package run on the shims of /verif/harness/vf (sequentially consistent memory; in-memory files with owner permissions)",
	"RSA-OAEP and gzip are ideal functions with the real size limits and error cases",
	"decimal.Decimal is modelled as sign and 64-bit magnitude with an exact exponent; time.Time as a civil time or seconds count, local time being UTC+8",
}

func (ev *evidence) write() {
	states, trans, valid := int64(0), int64(0), 0
	funcs := map[string]bool{}
	var samples []interface{}
	exh := len(ev.runs) > 0 && len(ev.notes) == 0
	var q, sat, unsat, unk int64
	var ss float64
	var bounds []string
	for _, r := range ev.runs {
		states += r.Paths + r.Decisions
		trans += r.Steps
		valid += r.Validated
		q += r.Queries
		sat += r.Sat
		unsat += r.Unsat
		unk += r.Unknown
		ss += r.SolverS
		exh = exh && r.Exhaustive && !r.Vacuous && len(r.MissingCovers) == 0
		bounds = append(bounds, r.Harness+": "+r.Bounds)
		for _, f := range r.funcs {
			if strings.Contains(f, modPath) && !strings.Contains(f, "zzvf") && !strings.Contains(f, ".vh") {
				funcs[f] = true
			}
		}
		for i, s := range r.samples {
			if i >= 2 {
				break
			}
			samples = append(samples, map[string]interface{}{"harness": r.Harness, "path_witness": compact(s.Inputs), "observed": s.Obs})
		}
	}
	var fl []string
	for f := range funcs {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	doc := map[string]interface{}{
		"property": ev.prop, "tier": ev.tier, "seed": ev.seed, "level": "model_checking", "wall_s": time.Since(ev.start).Seconds(), "violations": ev.violations,
		"assumptions": stubNotes,
		"coverage": map[string]interface{}{
			"states": states, "transitions": trans, "traces_validated_against_impl": valid, "samples": samples, "exhaustive": exh,
			"meaning":           "states: explored paths plus symbolic decision points; transitions: SSA instructions executed symbolically; each path stands for all values satisfying its condition",
			"functions_encoded": fl, "functions_encoded_count": len(fl), "bounds": bounds, "solver_queries": q, "sat": sat, "unsat": unsat, "unknown": unk, "solver_s": ss,
			"harnesses": ev.runs, "notes": ev.notes,
		},
	}
	dir := filepath.Join(verifDir, "evidence")
	os.MkdirAll(dir, 0755)
	js, _ := json.MarshalIndent(doc, "", " ")
	os.WriteFile(filepath.Join(dir, ev.prop+".json"), append(js, '\n'), 0644)
}

func compact(in []InputVal) string {
	var sb strings.Builder
	for i, v := range in {
		if i > 0 {
			sb.WriteByte(' ')
		}
		if i > 80 {
			fmt.Fprintf(&sb, "... (%d values)", len(in))
			break
		}
		fmt.Fprintf(&sb, "%s=%d", v.Name, v.V)
	}
	return sb.String()
}

func (ev *evidence) summary() {
	var paths, q int64
	var lim []string
	valid := 0
	for _, r := range ev.runs {
		paths += r.Paths
		q += r.Queries
		valid += r.Validated
		for _, l := range r.Limits {
			lim = append(lim, r.Harness+": "+l)
		}
		for _, l := range r.Unsupported {
			lim = append(lim, r.Harness+": unsupported: "+l)
		}
		for _, l := range r.EngineErrors {
			lim = append(lim, r.Harness+": engine: "+l)
		}
		if r.Vacuous {
			lim = append(lim, r.Harness+": no path reached the end")
		}
		for _, c := range r.MissingCovers {
			lim = append(lim, r.Harness+": not reached: "+c)
		}
		if r.Mismatch > 0 {
			lim = append(lim, fmt.Sprintf("%s: %d witnesses behave differently natively: %s", r.Harness, r.Mismatch, tail(r.MismatchText, 300)))
		}
	}
	for _, l := range lim {
		fmt.Println("REDUCED", l)
	}
	fmt.Printf("%s %s: %d harnesses, %d paths, %d queries, %d witnesses validated, %d violations, %.1fs\n", ev.prop, ev.tier, len(ev.runs), paths, q, valid, ev.violations, time.Since(ev.start).Seconds())
}
