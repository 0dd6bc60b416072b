package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type replayCase struct {
	Harness string     `json:"harness"`
	Tier    string     `json:"tier"`
	Inputs  []InputVal `json:"inputs"`
}

type replayResult struct {
	End    string   `json:"end"`
	Msg    string   `json:"msg"`
	Obs    []ObsVal `json:"obs"`
	Covers []string `json:"covers"`
}

type knownFinding struct {
	Property string `json:"property"`
	Status   string `json:"status"` // "known" or "fixed"
	Harness  string `json:"harness"`
	Msg      string `json:"msg"`
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
}

type options struct {
	prop, tier, harness string
	verbose             bool
	noReplay            bool
	workers             int
	limit               time.Duration
	prof                string
	dump                bool
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: symgo check ID [-tier quick|thorough] [-harness NAME] [-v] | replay FILE | list | rewrite FILE")
		os.Exit(2)
	}
	if v := os.Getenv("VERIF_REPO"); v != "" {
		repoDir = v
	}
	if v := os.Getenv("VERIF_DIR"); v != "" {
		verifDir = v
	}
	switch os.Args[1] {
	case "check":
		os.Exit(cmdCheck(parseOpts(os.Args[2:])))
	case "replay":
		os.Exit(cmdReplay(os.Args[2]))
	case "list":
		ld, err := buildOverlay("")
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		for _, h := range ld.harnesses {
			fmt.Println(h.Property, h.Name, h.Opts, h.Bounds)
		}
	case "rewrite":
		ld, err := buildOverlay(os.Getenv("SYMGO_PROP"))
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		fmt.Print(string(ld.overlay[os.Args[2]]))
	}
}

func parseOpts(a []string) options {
	o := options{tier: "quick", workers: runtime.NumCPU()}
	if t := os.Getenv("VERIF_TIER"); t == "thorough" {
		o.tier = t
	}
	for i := 0; i < len(a); i++ {
		switch a[i] {
		case "-tier":
			i++
			o.tier = a[i]
		case "-harness":
			i++
			o.harness = a[i]
		case "-v":
			o.verbose = true
		case "-noreplay":
			o.noReplay = true
		case "-j":
			i++
			o.workers, _ = strconv.Atoi(a[i])
		case "-limit":
			i++
			o.limit, _ = time.ParseDuration(a[i])
		case "-prof":
			i++
			o.prof = a[i]
		case "-debug":
			debugPanics = true
		default:
			o.prop = a[i]
		}
	}
	return o
}

var tierThorough bool

func cmdCheck(o options) int {
	start := time.Now()
	if o.prof != "" {
		f, _ := os.Create(o.prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	tierThorough = o.tier == "thorough"
	seed := int64(1)
	if v, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = v
	}
	ev := &evidence{prop: o.prop, tier: o.tier, seed: seed, start: start}
	ld, err := buildOverlay(o.prop)
	if err != nil {
		fmt.Println("ERROR", err)
		return 2
	}
	defer ld.cleanup()
	if err := ld.loadSSA(); err != nil {
		// nothing can be said about this tree
		fmt.Println("INCONCLUSIVE", o.prop, err)
		ev.note(err.Error())
		ev.write()
		return 0
	}
	for _, x := range ld.pruned {
		fmt.Println("REDUCED harness code does not fit this tree:", x)
		ev.note("harness code does not fit this tree: " + x)
	}
	var hs []*Harness
	for _, h := range ld.harnesses {
		if o.prop != "all" && h.Property != o.prop || o.harness != "" && !strings.HasPrefix(h.Name, o.harness) {
			continue
		}
		if h.Opts["tier"] == "thorough" && o.tier != "thorough" && o.harness == "" {
			continue
		}
		if h.Opts["tier"] == "quick" && o.tier != "quick" && o.harness == "" {
			continue
		}
		hs = append(hs, h)
	}
	if len(hs) == 0 {
		fmt.Println("ERROR no harness for", o.prop)
		return 2
	}
	if o.verbose {
		fmt.Printf("loaded in %.1fs\n", time.Since(start).Seconds())
	}
	// native build in the background
	type built struct {
		bin string
		err error
	}
	bch := make(chan built, 1)
	if _, err := ld.writeTmp(); err != nil {
		fmt.Println("ERROR", err)
		return 2
	}
	go func() {
		bin, err := ld.buildReplay()
		bch <- built{bin, err}
	}()
	total := 420 * time.Second
	if tierThorough {
		total = 40 * time.Minute
	}
	if o.limit > 0 {
		total = o.limit
	}
	end := time.Now().Add(total)
	var nat built
	var natOnce sync.Once
	code := 0
	known := loadKnown()
	nviol := 0
	for i, h := range hs {
		// an equal share of what is left for every harness
		left := time.Until(end)
		share := left / time.Duration(len(hs)-i)
		if share < 5*time.Second {
			share = 5 * time.Second
		}
		if len(hs)-i > 1 && share < left/2 {
			share = left / 2
		}
		e := &Engine{prog: ld.prog, queryTimeoutMs: 5000, workers: o.workers, maxPaths: 2_000_000, maxSteps: 30_000_000, maxSamples: 12, rng: uint64(seed), deadline: time.Now().Add(share)}
		if tierThorough {
			e.cross = 50
			e.queryTimeoutMs = 30000
			e.maxPaths = 20_000_000
			e.maxSteps = 200_000_000
			e.maxSamples = 40
		}
		if n, err := strconv.ParseInt(h.Opts["steps"], 10, 64); err == nil && n > e.maxSteps {
			e.maxSteps = n
		}
		waitNative := func() bool {
			natOnce.Do(func() {
				nat = <-bch
				if nat.err != nil {
					fmt.Println("INCONCLUSIVE", o.prop, nat.err)
					ev.note(nat.err.Error())
				}
			})
			return nat.err == nil
		}
		var conMu sync.Mutex
		confirmed := map[string]replayResult{}
		if !o.noReplay {
			e.onViol = func(msg string, in []InputVal) bool {
				if !waitNative() {
					return false
				}
				res := runNative(nat.bin, ld.tmp, replayCase{h.Name, o.tier, in})
				conMu.Lock()
				defer conMu.Unlock()
				confirmed[msg] = res
				return !o.verbose && (res.End == "violation" || msg == hangMsg && res.End == "timeout") && matchKnown(known, h, msg) == nil
			}
		}
		t0 := time.Now()
		e.Run(h.Fn)
		hr := ev.add(h, e, time.Since(t0))
		if o.verbose {
			hr.print()
		}
		if o.noReplay || !waitNative() {
			continue
		}
		// replay candidate violations
		for _, msg := range e.violOrder {
			v := e.viol[msg]
			c := replayCase{h.Name, o.tier, v.Inputs}
			res, ok := confirmed[msg]
			if !ok {
				res = runNative(nat.bin, ld.tmp, c)
			}
			if msg == hangMsg {
				if res.End == "timeout" {
					res.End = "violation"
				} else if res.End == "ok" {
					continue // long, but it ends
				}
			}
			if res.End != "violation" {
				fmt.Printf("INCONCLUSIVE %s %s: %q did not reproduce natively (%s %s)\n", h.Property, h.Name, msg, res.End, res.Msg)
				hr.Unconfirmed = append(hr.Unconfirmed, msg)
				if os.Getenv("VERIF_KEEP") != "" {
					saveReplay(h, c, res, msg+" (not reproduced)", 1000+len(hr.Unconfirmed))
				}
				continue
			}
			if k := matchKnown(known, h, msg); k != nil {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", h.Property, k.What)
				ev.known++
				continue
			}
			nviol++
			path := saveReplay(h, c, res, msg, nviol)
			fmt.Printf("%s: %s (natively: %s)\n", h.Name, msg, res.Msg)
			fmt.Printf("VIOLATION property=%s replay=%s\n", h.Property, path)
			code = 1
			if nviol >= 3 && !o.verbose {
				break
			}
		}
		// validate path witnesses
		var mu sync.Mutex
		var wg sync.WaitGroup
		sem := make(chan bool, o.workers)
		for _, s := range e.samples {
			s := s
			wg.Add(1)
			sem <- true
			go func() {
				defer wg.Done()
				defer func() { <-sem }()
				c := replayCase{h.Name, o.tier, s.Inputs}
				res := runNative(nat.bin, ld.tmp, c)
				mu.Lock()
				defer mu.Unlock()
				switch {
				case res.End == "violation":
					if matchKnown(known, h, res.Msg) != nil {
						return
					}
					nviol++
					path := saveReplay(h, c, res, res.Msg, nviol)
					fmt.Printf("%s: witness fails natively: %s\n", h.Name, res.Msg)
					fmt.Printf("VIOLATION property=%s replay=%s\n", h.Property, path)
					code = 1
				case res.End != "ok" || !sameObs(s.Obs, res.Obs):
					hr.Mismatch++
					if hr.MismatchText == "" {
						hr.MismatchText = fmt.Sprintf("%s %s engine %v native %v", res.End, res.Msg, s.Obs, res.Obs)
					}
					if o.verbose {
						fmt.Printf("  witness mismatch %s: %s %s engine %v native %v inputs %v\n", h.Name, res.End, res.Msg, s.Obs, res.Obs, s.Inputs)
					}
				default:
					hr.Validated++
				}
			}()
		}
		wg.Wait()
		if o.verbose {
			fmt.Printf("  validated %d mismatches %d\n", hr.Validated, hr.Mismatch)
		}
		if code == 1 && !o.verbose {
			break
		}
	}
	ev.violations = nviol
	ev.write()
	ev.summary()
	return code
}

func sameObs(a, b []ObsVal) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Tag != b[i].Tag || a[i].V != b[i].V && a[i].V != "?" && b[i].V != "?" {
			return false
		}
	}
	return true
}

var caseNo int64

func runNative(bin, tmp string, c replayCase) replayResult {
	n := atomic.AddInt64(&caseNo, 1)
	in := filepath.Join(tmp, fmt.Sprintf("case%d.json", n))
	out := filepath.Join(tmp, fmt.Sprintf("res%d.json", n))
	js, _ := json.Marshal([]replayCase{c})
	os.WriteFile(in, js, 0644)
	defer os.Remove(in)
	defer os.Remove(out)
	cmd := exec.Command("bash", "-c", `ulimit -v 16000000; exec "$0"`, bin)
	cmd.Env = append(os.Environ(), "VF_CASES="+in, "VF_RESULTS="+out, "TZ=UTC", "GOMAXPROCS=2")
	cmd.Dir = tmp
	var sb strings.Builder
	cmd.Stdout, cmd.Stderr = &sb, &sb
	if err := cmd.Start(); err != nil {
		return replayResult{End: "error", Msg: err.Error()}
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var err error
	select {
	case err = <-done:
	case <-time.After(20 * time.Second):
		cmd.Process.Kill()
		<-done
		return replayResult{End: "timeout", Msg: "native run did not end"}
	}
	text, rerr := os.ReadFile(out)
	var rs []replayResult
	if rerr == nil && json.Unmarshal(text, &rs) == nil && len(rs) == 1 {
		return rs[0]
	}
	o := sb.String()
	if strings.Contains(o, "panic:") || strings.Contains(o, "fatal error:") {
		return replayResult{End: "violation", Msg: "process died: " + firstLineWith(o, "panic:", "fatal error:")}
	}
	return replayResult{End: "error", Msg: fmt.Sprint(err, tail(o, 400))}
}

func firstLineWith(s string, subs ...string) string {
	for _, l := range strings.Split(s, "\n") {
		for _, x := range subs {
			if strings.Contains(l, x) {
				return l
			}
		}
	}
	return ""
}

func saveReplay(h *Harness, c replayCase, res replayResult, msg string, n int) string {
	dir := filepath.Join(verifDir, "replay")
	os.MkdirAll(dir, 0755)
	p := filepath.Join(dir, fmt.Sprintf("%s_%s_%d.json", h.Property, h.Name, n))
	js, _ := json.MarshalIndent(map[string]interface{}{
		"property": h.Property, "harness": h.Name, "tier": c.Tier, "message": msg, "native": res, "inputs": c.Inputs,
		"how": "bash /verif/check.sh replay " + p,
	}, "", " ")
	os.WriteFile(p, js, 0644)
	return p
}

func cmdReplay(path string) int {
	text, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var c replayCase
	if err := json.Unmarshal(text, &c); err != nil {
		fmt.Println(err)
		return 2
	}
	ld, err := buildOverlay(harnessProp(c.Harness))
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer ld.cleanup()
	bin, err := ld.buildReplay()
	if err != nil {
		fmt.Println(err)
		return 2
	}
	r := runNative(bin, ld.tmp, c)
	js, _ := json.MarshalIndent(r, "", " ")
	fmt.Println(string(js))
	if r.End == "violation" {
		return 1
	}
	return 0
}

func loadKnown() []knownFinding {
	text, err := os.ReadFile(filepath.Join(verifDir, "known-findings.json"))
	if err != nil {
		return nil
	}
	var k struct {
		Findings []knownFinding `json:"findings"`
	}
	if err := json.Unmarshal(text, &k); err != nil {
		return nil
	}
	return k.Findings
}

func matchKnown(ks []knownFinding, h *Harness, msg string) *knownFinding {
	for i := range ks {
		k := &ks[i]
		if k.Status == "known" && k.Property == h.Property && k.Harness == h.Name && k.Msg == msg {
			return k
		}
	}
	return nil
}

func keysCount(m map[string]int) []string {
	var out []string
	for k, n := range m {
		out = append(out, fmt.Sprintf("%s (%d)", k, n))
	}
	sort.Strings(out)
	return out
}

func harnessProp(name string) string {
	if m := reHarness.FindStringSubmatch(name); m != nil {
		return m[1]
	}
	return ""
}
