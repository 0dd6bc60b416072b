package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

var slowDir = os.Getenv("SYMGO_SLOW")
var slowNs = func() int64 { v, _ := strconv.ParseInt(os.Getenv("SYMGO_SLOWMS"), 10, 64); return v * 1000000 }()

type Result int

const (
	Unknown Result = iota
	Sat
	Unsat
)

// SolverStats are shared by all workers of a run.
type SolverStats struct {
	Queries, SatN, UnsatN, UnknownN, CacheHits, Fallbacks, CrossChecked, CrossMismatch int64
	Nanos                                                                              int64
	MaxNanos                                                                           int64
}

type Solver struct {
	tt        *TermTable
	cmd       *exec.Cmd
	in        io.WriteCloser
	out       *bufio.Reader
	cache     map[string]cacheEnt
	stats     *SolverStats
	n         int
	timeoutMs int
	cross     int // cross-check every n-th query with cvc5 (0: never)
	crossProc *Solver
	deadline  time.Time
	bin       string
	args      []string
}

type cacheEnt struct {
	r Result
	m Model
}

func NewSolver(tt *TermTable, st *SolverStats, timeoutMs int) *Solver {
	s := &Solver{tt: tt, stats: st, cache: map[string]cacheEnt{}, timeoutMs: timeoutMs, bin: solverBin(), args: []string{"-in"}}
	return s
}

func solverBin() string {
	for _, b := range []string{"z3-new", "z3"} {
		if p, err := exec.LookPath(b); err == nil {
			return p
		}
	}
	return "z3"
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.bin, s.args...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in, s.out = in, bufio.NewReaderSize(out, 1<<16)
	s.n = 0
	if strings.Contains(s.bin, "z3") {
		fmt.Fprintf(s.in, "(set-option :timeout %d)\n", s.timeoutMs)
	} else {
		fmt.Fprintf(s.in, "(set-logic QF_BV)\n")
	}
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
	if s.crossProc != nil {
		s.crossProc.Close()
	}
}

// query text for a conjunction
func (s *Solver) script(as []*Term) (string, []*Term, bool) {
	var sb strings.Builder
	seen := map[*Term]bool{}
	fp := false
	var vars []*Term
	var visit func(t *Term)
	visit = func(t *Term) {
		if t == nil || t.op == OpConst || seen[t] {
			return
		}
		seen[t] = true
		fp = fp || isFP(t.op)
		if t.op == OpVar {
			vars = append(vars, t)
			fmt.Fprintf(&sb, "(declare-const %s %s)\n", t.ref(), t.sort())
			if t.w > 0 && t.lo > 0 {
				fmt.Fprintf(&sb, "(assert (bvuge %s (_ bv%d %d)))\n", t.ref(), t.lo, t.w)
			}
			if t.w > 0 && t.hi < mask(t.w) {
				fmt.Fprintf(&sb, "(assert (bvule %s (_ bv%d %d)))\n", t.ref(), t.hi, t.w)
			}
			return
		}
		visit(t.a)
		visit(t.b)
		visit(t.c)
		fmt.Fprintf(&sb, "(define-fun t%d () %s %s)\n", t.id, t.sort(), t.body())
	}
	for _, a := range as {
		visit(a)
	}
	for _, a := range as {
		fmt.Fprintf(&sb, "(assert %s)\n", a.ref())
	}
	return sb.String(), vars, fp
}

func (s *Solver) Check(as []*Term) (Result, Model) {
	ids := make([]int, 0, len(as))
	for _, a := range as {
		if a.False() {
			return Unsat, nil
		}
		if a.True() {
			continue
		}
		ids = append(ids, int(a.id))
	}
	sort.Ints(ids)
	var kb strings.Builder
	last := -1
	for _, i := range ids {
		if i != last {
			kb.WriteString(strconv.Itoa(i))
			kb.WriteByte(',')
			last = i
		}
	}
	key := kb.String()
	if e, ok := s.cache[key]; ok {
		atomic.AddInt64(&s.stats.CacheHits, 1)
		return e.r, e.m
	}
	t0 := time.Now()
	text, vars, fp := s.script(as)
	var r Result
	var m Model
	if fp {
		// models are easy to come by where the theory is slow; only the solver
		// can say that there is none
		if m = s.guess(as, vars); m != nil {
			r = Sat
		} else {
			r, m = s.floating(text, vars)
		}
	} else {
		r, m = s.run(text, vars)
	}
	if r == Unknown && !fp {
		atomic.AddInt64(&s.stats.Fallbacks, 1)
		r, m = s.fallback(text, vars)
	}
	d := time.Since(t0).Nanoseconds()
	n := atomic.AddInt64(&s.stats.Queries, 1)
	if slowDir != "" && d > slowNs {
		os.WriteFile(fmt.Sprintf("%s/q%d_%dms_%d.smt2", slowDir, n, d/1e6, r), []byte(text+"(check-sat)\n"), 0644)
	}
	atomic.AddInt64(&s.stats.Nanos, d)
	for {
		old := atomic.LoadInt64(&s.stats.MaxNanos)
		if d <= old || atomic.CompareAndSwapInt64(&s.stats.MaxNanos, old, d) {
			break
		}
	}
	switch r {
	case Sat:
		atomic.AddInt64(&s.stats.SatN, 1)
	case Unsat:
		atomic.AddInt64(&s.stats.UnsatN, 1)
	default:
		atomic.AddInt64(&s.stats.UnknownN, 1)
	}
	if s.cross > 0 && !fp && n%int64(s.cross) == 0 && r != Unknown {
		if s.crossProc == nil {
			if p, err := exec.LookPath("cvc5"); err == nil {
				s.crossProc = &Solver{tt: s.tt, bin: p, args: []string{"--incremental", "--produce-models", "--tlimit-per=20000", "--lang=smt2"}, timeoutMs: 20000}
			}
		}
		if s.crossProc != nil {
			r2, _ := s.crossProc.run(text, vars)
			if r2 != Unknown {
				atomic.AddInt64(&s.stats.CrossChecked, 1)
				if r2 != r {
					atomic.AddInt64(&s.stats.CrossMismatch, 1)
					r, m = Unknown, nil
				}
			}
		}
	}
	if r == Sat {
		// every model is checked by evaluation before it is used
		s.tt.NewEval()
		for _, a := range as {
			if s.tt.Eval(a, m) != 1 {
				panic(Unsupported{"solver model does not satisfy the query (evaluator and solver disagree): " + a.String()})
			}
		}
		s.tt.NewEval()
	}
	if len(s.cache) > 400000 {
		s.cache = map[string]cacheEnt{}
	}
	s.cache[key] = cacheEnt{r, m}
	return r, m
}

// guess looks for a model among a few thousand assignments
func (s *Solver) guess(as []*Term, vars []*Term) Model {
	x := uint64(0x9e3779b97f4a7c15)
	for n := 0; n < 4000; n++ {
		m := make(Model, len(vars))
		for _, v := range vars {
			x ^= x << 13
			x ^= x >> 7
			x ^= x << 17
			lo, hi := v.lo, v.hi
			if v.w == 0 {
				lo, hi = 0, 1
			}
			switch {
			case n == 0:
				m[v.name] = lo
			case n == 1:
				m[v.name] = hi
			case hi-lo == ^uint64(0):
				m[v.name] = x
			default:
				m[v.name] = lo + x%(hi-lo+1)
			}
		}
		s.tt.NewEval()
		ok := true
		for _, a := range as {
			if s.tt.Eval(a, m) != 1 {
				ok = false
				break
			}
		}
		if ok {
			s.tt.NewEval()
			return m
		}
	}
	s.tt.NewEval()
	return nil
}

const endMark = "@@end"

func (s *Solver) run(text string, vars []*Term) (Result, Model) {
	if s.cmd == nil {
		s.start()
	}
	s.n++
	var sb strings.Builder
	sb.WriteString("(push 1)\n")
	sb.WriteString(text)
	sb.WriteString("(check-sat)\n(echo \"" + endMark + "\")\n")
	if _, err := io.WriteString(s.in, sb.String()); err != nil {
		s.Close()
		return Unknown, nil
	}
	lines, ok := s.readUntil()
	if !ok {
		s.Close()
		return Unknown, nil
	}
	res := Unknown
	for _, l := range lines {
		if strings.Contains(l, "(error") {
			s.Close()
			return Unknown, nil
		}
		switch l {
		case "sat":
			res = Sat
		case "unsat":
			res = Unsat
		}
	}
	var m Model
	if res == Sat {
		m = Model{}
		if len(vars) > 0 {
			sb.Reset()
			sb.WriteString("(get-value (")
			for _, v := range vars {
				sb.WriteString(v.ref() + " ")
			}
			sb.WriteString("))\n(echo \"" + endMark + "\")\n")
			io.WriteString(s.in, sb.String())
			lines, ok = s.readUntil()
			if !ok || !parseModel(strings.Join(lines, " "), vars, m) {
				s.Close()
				return Unknown, nil
			}
		}
	}
	io.WriteString(s.in, "(pop 1)\n")
	if s.n > 4000 {
		cp := s.crossProc
		s.crossProc = nil
		s.Close()
		s.crossProc = cp
	}
	return res, m
}

func (s *Solver) readUntil() ([]string, bool) {
	var lines []string
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return nil, false
		}
		l = strings.TrimSpace(l)
		if strings.Trim(l, "\"") == endMark {
			return lines, true
		}
		if l != "" {
			lines = append(lines, l)
		}
	}
}

func parseModel(text string, vars []*Term, m Model) bool {
	// ((|a| #x01) (|b| true) (|c| (_ bv3 8)))
	i := 0
	for _, v := range vars {
		k := strings.Index(text[i:], "("+v.ref()+" ")
		if k < 0 {
			return false
		}
		i += k + len(v.ref()) + 2
		rest := strings.TrimLeft(text[i:], " ")
		switch {
		case strings.HasPrefix(rest, "#x"):
			e := strings.IndexAny(rest, ") ")
			x, err := strconv.ParseUint(rest[2:e], 16, 64)
			if err != nil {
				return false
			}
			m[v.name] = x
		case strings.HasPrefix(rest, "#b"):
			e := strings.IndexAny(rest, ") ")
			x, err := strconv.ParseUint(rest[2:e], 2, 64)
			if err != nil {
				return false
			}
			m[v.name] = x
		case strings.HasPrefix(rest, "true"):
			m[v.name] = 1
		case strings.HasPrefix(rest, "false"):
			m[v.name] = 0
		case strings.HasPrefix(rest, "(_ bv"):
			e := strings.IndexAny(rest[5:], " ")
			x, err := strconv.ParseUint(rest[5:5+e], 10, 64)
			if err != nil {
				return false
			}
			m[v.name] = x
		default:
			return false
		}
	}
	return true
}

// floating decides a query with floating point terms
func (s *Solver) floating(text string, vars []*Term) (Result, Model) {
	ms := s.timeoutMs * 4
	if !s.deadline.IsZero() {
		if left := int(time.Until(s.deadline).Milliseconds()); left < ms {
			ms = left
		}
	}
	if ms < 200 {
		return Unknown, nil
	}
	return tryBin("QF_BVFP", text, vars, "cvc5", fmt.Sprintf("--tlimit=%d", ms), "--produce-models", "--lang=smt2", "-")
}

func tryBin(logic, text string, vars []*Term, bin string, args ...string) (Result, Model) {
	p, err := exec.LookPath(bin)
	if err != nil {
		return Unknown, nil
	}
	cmd := exec.Command(p, args...)
	var sb strings.Builder
	sb.WriteString("(set-option :produce-models true)\n(set-logic " + logic + ")\n" + text + "(check-sat)\n")
	if len(vars) > 0 {
		sb.WriteString("(get-value (")
		for _, v := range vars {
			sb.WriteString(v.ref() + " ")
		}
		sb.WriteString("))\n")
	}
	cmd.Stdin = strings.NewReader(sb.String())
	out, _ := cmd.Output()
	lines := strings.SplitN(strings.TrimSpace(string(out)), "\n", 2)
	if lines[0] == "unsat" {
		return Unsat, nil
	}
	if lines[0] == "sat" && !strings.Contains(string(out), "(error") {
		m := Model{}
		if len(vars) == 0 || len(lines) == 2 && parseModel(strings.ReplaceAll(lines[1], "\n", " "), vars, m) {
			return Sat, m
		}
	}
	return Unknown, nil
}

// fallback: fresh non-incremental processes with a larger budget
func (s *Solver) fallback(text string, vars []*Term) (Result, Model) {
	try := func(bin string, args ...string) (Result, Model) { return tryBin("QF_BV", text, vars, bin, args...) }
	ms := s.timeoutMs * 3
	if !s.deadline.IsZero() {
		if left := int(time.Until(s.deadline).Milliseconds()) / 2; left < ms {
			ms = left
		}
	}
	if ms < 1000 {
		return Unknown, nil
	}
	if r, m := try("z3-new", "-in", fmt.Sprintf("-T:%d", ms/1000+1)); r != Unknown {
		return r, m
	}
	if r, m := try("cvc5", fmt.Sprintf("--tlimit=%d", ms), "--produce-models", "--lang=smt2", "-"); r != Unknown {
		return r, m
	}
	return Unknown, nil
}
