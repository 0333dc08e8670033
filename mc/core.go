// Command mc is the bounded model checker for ava12/llx.
//
// Every property is decided by exhaustive enumeration of a bounded space of cases (inputs, grammars,
// operation histories, fault points or schedules). Every case is executed on the real code of the
// repository (this package is compiled inside the repository's module by means of an overlay) and
// compared with an independent reference model on every step.
package main

import (
	"crypto/sha1"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"hash/maphash"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Run is one run of one check.
type Run struct {
	ID       string
	Thorough bool
	Seed     int64
	Workers  int
	deadline time.Time
	started  time.Time

	evDir   string
	journal string

	replay *replayFile // non-nil when a single recorded case is replayed

	mu          sync.Mutex
	parts       []*partStat
	samples     []any
	notes       []string
	assumptions []string
	violations  []violation
	knownHits   map[string]string
	known       map[string]string
	stop        atomic.Bool
	seed        maphash.Seed
}

type partStat struct {
	Name        string           `json:"part"`
	States      int64            `json:"states"`
	Transitions int64            `json:"transitions"`
	Traces      int64            `json:"traces_validated_against_impl"`
	Cases       int64            `json:"cases"`
	Outcomes    map[string]int64 `json:"outcomes,omitempty"`
	Exhaustive  bool             `json:"exhaustive"`
	WallS       float64          `json:"wall_s"`
}

type violation struct {
	part, msg, path string
}

type replayFile struct {
	Property string          `json:"property"`
	Part     string          `json:"part"`
	Key      string          `json:"key"`
	Message  string          `json:"message"`
	Case     json.RawMessage `json:"case"`
	Replay   string          `json:"replay_with"`
}

// W is a worker: it owns counters of one worker goroutine.
type W struct {
	run         *Run
	states      map[uint64]struct{}
	transitions int64
	traces      int64
	cases       int64
	extraStates int64
	truncated   bool
	outcomes    map[string]int64
	startedAt   atomic.Int64
	current     atomic.Value
	scale       *scaleCache
	h           maphash.Hash
}

// State registers a canonical state of the model (or of the pair model/implementation).
func (w *W) State(parts ...string) {
	w.h.SetSeed(w.run.seed)
	for _, p := range parts {
		w.h.WriteString(p)
		w.h.WriteByte(0)
	}
	w.states[w.h.Sum64()] = struct{}{}
}

// Trans registers n executed and compared transitions.
func (w *W) Trans(n int) { w.transitions += int64(n) }

// Trace registers a complete behaviour validated against the implementation.
func (w *W) Trace() { w.traces++ }

// Outcome counts distinct kinds of observations, used to show that the exploration is not vacuous.
func (w *W) Outcome(s string) {
	w.outcomes[s]++
}

// Keyer is implemented by cases that have a short canonical key.
type Keyer interface{ Key() string }

func caseKey(c any) string {
	if k, ok := c.(Keyer); ok {
		return k.Key()
	}
	b, _ := json.Marshal(c)
	return string(b)
}

func (r *Run) expired() bool {
	return r.stop.Load() || time.Now().After(r.deadline)
}

// Note adds a free text remark to the evidence.
func (r *Run) Note(format string, args ...any) {
	r.mu.Lock()
	r.notes = append(r.notes, fmt.Sprintf(format, args...))
	r.mu.Unlock()
}

// Assume records an assumption.
func (r *Run) Assume(s string) { r.assumptions = append(r.assumptions, s) }

// Pick returns q for the quick tier and t for the thorough tier.
func Pick[T any](r *Run, q, t T) T {
	if r.Thorough {
		return t
	}
	return q
}

const batchSize = 64

type hangInfo struct {
	part string
	c    any
	d    time.Duration
}

func safely[C any](run func(*W, C) error, w *W, c C) (e error) {
	defer func() {
		if p := recover(); p != nil {
			e = fmt.Errorf("panic: %v\n%s", p, trimStack(debug.Stack()))
		}
	}()
	return run(w, c)
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "/repo/") || strings.Contains(l, "llx") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) > 12 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// Explore runs all cases produced by gen. gen must enumerate a finite space completely and
// must stop as soon as emit returns false.
func Explore[C any](r *Run, part string, gen func(emit func(C) bool), run func(w *W, c C) error) {
	if r.replay != nil {
		if r.replay.Part != part {
			return
		}
		var c C
		if e := json.Unmarshal(r.replay.Case, &c); e != nil {
			fmt.Println("cannot decode the case:", e)
			os.Exit(2)
		}
		w := newW(r)
		done := make(chan error, 1)
		go func() { done <- safely(run, w, c) }()
		select {
		case e := <-done:
			if e != nil {
				fmt.Printf("part %s: case %s\nFAILS: %v\n", part, caseKey(c), e)
				r.violations = append(r.violations, violation{part, e.Error(), ""})
			} else {
				fmt.Printf("part %s: case %s\nholds\n", part, caseKey(c))
			}
		case <-time.After(hangLimit):
			fmt.Printf("part %s: case %s\nFAILS: does not terminate\n", part, caseKey(c))
			r.violations = append(r.violations, violation{part, "does not terminate", ""})
		}
		return
	}
	if r.expired() {
		r.mu.Lock()
		r.parts = append(r.parts, &partStat{Name: part})
		r.mu.Unlock()
		return
	}

	start := time.Now()
	n := r.Workers
	ch := make(chan []C, n*2)
	ws := make([]*W, n)
	var wg sync.WaitGroup
	for i := range ws {
		w := newW(r)
		ws[i] = w
		wg.Add(1)
		go func() {
			defer wg.Done()
			for batch := range ch {
				for _, c := range batch {
					if r.stop.Load() {
						break
					}
					w.current.Store(box{c})
					if r.journal != "" {
						r.writeJournal(part, c)
					}
					w.startedAt.Store(time.Now().UnixNano())
					w.cases++
					e := safely(run, w, c)
					if e != nil {
						handleFailure(r, w, part, c, e, run)
					}
					w.startedAt.Store(0)
				}
			}
		}()
	}

	quit := make(chan struct{})
	go watch(r, part, ws, quit)

	complete := true
	var batch []C
	first := true
	size := 1
	gen(func(c C) bool {
		if first {
			r.addSample(part, c)
			first = false
		}
		batch = append(batch, c)
		if len(batch) >= size {
			if r.expired() {
				complete = false
				return false
			}
			ch <- batch
			batch = nil
			if _, slow := any(c).(interface{ Slow() }); size < batchSize && !slow {
				size *= 2
			}
		}
		return true
	})
	if len(batch) > 0 && complete {
		r.addSample(part, batch[len(batch)-1])
		ch <- batch
	}
	close(ch)
	wg.Wait()
	close(quit)

	st := &partStat{Name: part, Outcomes: map[string]int64{}, Exhaustive: complete && !r.stop.Load()}
	all := ws[0].states
	extra := int64(0)
	for i, w := range ws {
		st.Transitions += w.transitions
		st.Traces += w.traces
		st.Cases += w.cases
		extra += w.extraStates
		st.Exhaustive = st.Exhaustive && !w.truncated
		for k, v := range w.outcomes {
			st.Outcomes[k] += v
		}
		if i > 0 {
			for k := range w.states {
				all[k] = struct{}{}
			}
		}
	}
	st.States = int64(len(all)) + extra
	st.WallS = time.Since(start).Seconds()
	r.mu.Lock()
	r.parts = append(r.parts, st)
	r.mu.Unlock()
}

type box struct{ v any }

func newW(r *Run) *W {
	return &W{run: r, states: map[uint64]struct{}{}, outcomes: map[string]int64{}}
}

func (r *Run) addSample(part string, c any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.samples) < 24 {
		var v any = c
		if k, ok := c.(Keyer); ok {
			v = k.Key()
		}
		r.samples = append(r.samples, map[string]any{"part": part, "case": v})
	}
}

const hangLimit = 40 * time.Second
const memLimit = 8 << 30

// watch reports cases that do not terminate or that consume memory without bound.
func watch(r *Run, part string, ws []*W, quit chan struct{}) {
	t := time.NewTicker(500 * time.Millisecond)
	defer t.Stop()
	for {
		select {
		case <-quit:
			return
		case <-t.C:
		}
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		var worst *W
		var worstD time.Duration
		for _, w := range ws {
			s := w.startedAt.Load()
			if s == 0 {
				continue
			}
			d := time.Since(time.Unix(0, s))
			if d > worstD {
				worst, worstD = w, d
			}
		}
		if worst == nil {
			continue
		}
		msg := ""
		if worstD > hangLimit {
			msg = fmt.Sprintf("does not terminate (still running after %v)", hangLimit)
		} else if ms.HeapAlloc > memLimit && worstD > 2*time.Second {
			msg = "does not terminate (memory grows without bound)"
		}
		if msg == "" {
			continue
		}
		c := worst.current.Load().(box).v
		r.recordViolation(part, c, msg)
		r.finish()
	}
}

func handleFailure[C any](r *Run, w *W, part string, c C, e error, run func(*W, C) error) {
	key := caseKey(c)
	r.mu.Lock()
	kid, known := r.known[part+"\x00"+key]
	r.mu.Unlock()
	if known {
		r.mu.Lock()
		r.knownHits[kid] = firstLine(e.Error())
		r.mu.Unlock()
		return
	}
	// a violation must be reproducible
	again := 0
	for i := 0; i < 4; i++ {
		if safely(run, newW(r), c) != nil {
			again++
		}
	}
	if again == 0 {
		r.Note("unstable failure (did not reproduce in 4 replays), part %s case %s: %s", part, key, firstLine(e.Error()))
		return
	}
	r.recordViolation(part, c, e.Error())
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	if len(s) > 300 {
		s = s[:300]
	}
	return s
}

var maxViolations = 1

func (r *Run) recordViolation(part string, c any, msg string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.violations) >= maxViolations {
		return
	}
	key := caseKey(c)
	raw, _ := json.Marshal(c)
	sum := sha1.Sum([]byte(part + key))
	path := filepath.Join(r.evDir, "replay", fmt.Sprintf("%s-%s.json", r.ID, hex.EncodeToString(sum[:5])))
	_ = os.MkdirAll(filepath.Dir(path), 0o755)
	rf := replayFile{r.ID, part, key, msg, raw, "bin/check.sh " + r.ID + " replay " + path}
	data, _ := json.MarshalIndent(rf, "", "  ")
	_ = os.WriteFile(path, append(data, '\n'), 0o644)
	r.violations = append(r.violations, violation{part, msg, path})
	if len(r.violations) >= maxViolations {
		r.stop.Store(true)
	}
}

var journalMu sync.Mutex

func (r *Run) writeJournal(part string, c any) {
	journalMu.Lock()
	defer journalMu.Unlock()
	raw, _ := json.Marshal(c)
	rf := replayFile{r.ID, part, caseKey(c), "process crash", raw, ""}
	data, _ := json.Marshal(rf)
	_ = os.WriteFile(r.journal, data, 0o644)
}

// finish writes evidence, prints results and exits.
func (r *Run) finish() {
	r.mu.Lock()
	var states, trans, traces, cases int64
	exhaustive := true
	for _, p := range r.parts {
		states += p.States
		trans += p.Transitions
		traces += p.Traces
		cases += p.Cases
		exhaustive = exhaustive && p.Exhaustive
	}
	tier := "quick"
	if r.Thorough {
		tier = "thorough"
	}
	ev := map[string]any{
		"property": r.ID,
		"tier":     tier,
		"seed":     r.Seed,
		"level":    "model_checking",
		"coverage": map[string]any{
			"states":                        states,
			"transitions":                   trans,
			"traces_validated_against_impl": traces,
			"cases":                         cases,
			"exhaustive":                    exhaustive && len(r.violations) == 0,
			"parts":                         r.parts,
			"samples":                       r.samples,
			"notes":                         r.notes,
			"explanation":                   checkInfo[r.ID].rule,
		},
		"assumptions": r.assumptions,
		"wall_s":      time.Since(r.started).Seconds(),
		"violations":  len(r.violations),
	}
	data, e := json.MarshalIndent(ev, "", " ")
	if e != nil {
		fmt.Fprintln(os.Stderr, e)
		os.Exit(2)
	}
	_ = os.MkdirAll(r.evDir, 0o755)
	if e := os.WriteFile(filepath.Join(r.evDir, r.ID+".json"), append(data, '\n'), 0o644); e != nil {
		fmt.Fprintln(os.Stderr, e)
		os.Exit(2)
	}
	for _, p := range r.parts {
		fmt.Printf("%s %-24s cases=%d states=%d transitions=%d traces=%d outcomes=%d exhaustive=%v %.1fs\n",
			r.ID, p.Name, p.Cases, p.States, p.Transitions, p.Traces, len(p.Outcomes), p.Exhaustive, p.WallS)
	}
	for _, n := range r.notes {
		fmt.Println("note:", n)
	}
	hits := make([]string, 0)
	for k, v := range r.knownHits {
		hits = append(hits, fmt.Sprintf("KNOWN-FINDING: property=%s %s: %s", r.ID, k, v))
	}
	sort.Strings(hits)
	for _, h := range hits {
		fmt.Println(h)
	}
	if len(r.violations) > 0 {
		for _, v := range r.violations {
			fmt.Printf("part %s: %s\n", v.part, v.msg)
			fmt.Printf("VIOLATION property=%s replay=%s\n", r.ID, v.path)
		}
		os.Exit(1)
	}
	fmt.Printf("%s %s: held on everything explored\n", r.ID, tier)
	os.Exit(0)
}

type knownEntry struct {
	Kind     string   `json:"kind"` // "finding" or "fixed"
	Property string   `json:"property"`
	ID       string   `json:"id"`
	Part     string   `json:"part"`
	Keys     []string `json:"keys"`
	What     string   `json:"what"`
}

func loadKnown(path, id string) map[string]string {
	res := map[string]string{}
	data, e := os.ReadFile(path)
	if e != nil {
		return res
	}
	for _, line := range strings.Split(string(data), "\n") {
		line = strings.TrimSpace(line)
		if line == "" || line[0] != '{' {
			continue
		}
		var k knownEntry
		if e := json.Unmarshal([]byte(line), &k); e != nil {
			fmt.Fprintln(os.Stderr, "known findings:", e)
			os.Exit(2)
		}
		if k.Kind != "finding" || k.Property != id {
			continue
		}
		for _, key := range k.Keys {
			res[k.Part+"\x00"+key] = k.ID
		}
	}
	return res
}

type info struct {
	run  func(r *Run)
	rule string
}

var checkInfo = map[string]info{}

func register(id, rule string, run func(r *Run)) {
	checkInfo[id] = info{run, rule}
}

// calcProcess runs a script of the calculator in a separate process, see c37_calc.go.
var calcProcess = func() {}

func main() {
	if len(os.Args) > 1 && os.Args[1] == "list" {
		var ids []string
		for k := range checkInfo {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, "\n"))
		return
	}
	if len(os.Args) > 1 && os.Args[1] == "calc-script" {
		debug.SetMaxStack(8 << 20)
		calcProcess()
		return
	}
	if len(os.Args) == 3 && os.Args[1] == "op" {
		runOp(os.Args[2])
		return
	}
	if len(os.Args) < 4 {
		fmt.Fprintln(os.Stderr, "usage: mc ID quick|thorough|replay VERIFDIR [FILE]")
		os.Exit(2)
	}
	id, tier, dir := os.Args[1], os.Args[2], os.Args[3]
	ci, ok := checkInfo[id]
	if !ok {
		fmt.Fprintln(os.Stderr, "no such check:", id)
		os.Exit(2)
	}
	if tier != "replay" && os.Getenv("MC_CHILD") == "" && os.Getenv("MC_NOFORK") == "" {
		parent(id, dir)
		return
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	r := &Run{
		ID: id, Thorough: tier == "thorough", Seed: seed, Workers: runtime.NumCPU(), started: time.Now(),
		evDir: filepath.Join(dir, "evidence"), journal: os.Getenv("MC_JOURNAL"),
		known: loadKnown(filepath.Join(dir, "known-findings.jsonl"), id), knownHits: map[string]string{},
		seed: maphash.MakeSeed(),
	}
	if r.journal != "" {
		r.Workers = 1
	}
	if s := os.Getenv("MC_ALL"); s != "" {
		maxViolations, _ = strconv.Atoi(s)
	}
	budget := 150 * time.Second
	if r.Thorough {
		budget = 720 * time.Second
	}
	if s, e := strconv.Atoi(os.Getenv("MC_BUDGET")); e == nil && s > 0 {
		budget = time.Duration(s) * time.Second
	}
	r.deadline = r.started.Add(budget)
	debug.SetMaxStack(256 << 20)
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(12 << 30)
	if tier == "replay" {
		data, e := os.ReadFile(os.Args[4])
		if e != nil {
			fmt.Fprintln(os.Stderr, e)
			os.Exit(2)
		}
		r.replay = &replayFile{}
		if e = json.Unmarshal(data, r.replay); e != nil {
			fmt.Fprintln(os.Stderr, e)
			os.Exit(2)
		}
		guarded(ci.run, r)
		if len(r.violations) > 0 {
			os.Exit(1)
		}
		return
	}
	guarded(ci.run, r)
	r.finish()
}

// guarded runs a check. Grammars and parsers which all the cases of a check share are made outside of any case:
// when this fails, the failure is reported as a violation too.
func guarded(f func(r *Run), r *Run) {
	defer func() {
		if e := recover(); e != nil {
			r.recordViolation("preparation", "preparation", fmt.Sprintf("panic: %v\n%s", e, debug.Stack()))
			r.finish()
		}
	}()
	f(r)
}
