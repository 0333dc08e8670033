// Command mcsched explores schedules of one scenario on instrumented code.
// It reads a job in JSON from the first argument and prints a report in JSON.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"time"

	"github.com/ava12/llx/zz_verif/vsched"
)

// Job describes what to explore.
type Job struct {
	Scenario string
	Bound    int  // preemptions or deviations from the default order
	Fine     bool // preempt at every statement
	Shard    int
	Shards   int
	RaceLog  string
	Seconds  int
	Choices  []vsched.Choice // run just this schedule
}

// Report is the result of exploration.
type Report struct {
	Schedules, Transitions, States, MaxDecisions int
	Truncated                                    bool
	Failure                                      string
	Choices                                      []vsched.Choice
	Outcomes                                     map[string]int
}

type scenario struct {
	opts vsched.Options
	// prepare makes a fresh execution: threads and a check called when all of them are done.
	prepare func() (threads []func(), check func(r vsched.Result) (outcome string, e error))
}

var raceLog string

func raceReport() string {
	if raceLog == "" {
		return ""
	}
	data, e := os.ReadFile(raceLog)
	if e != nil || len(data) == 0 {
		return ""
	}
	if len(data) > 3000 {
		data = data[:3000]
	}
	return string(data)
}

type explorer struct {
	job      Job
	sc       scenario
	rep      Report
	states   map[uint64]struct{}
	deadline time.Time
}

func (x *explorer) run(choices []vsched.Choice) (r vsched.Result, ok bool) {
	threads, check := x.sc.prepare()
	r = vsched.Execute(x.sc.opts, choices, threads...)
	x.rep.Schedules++
	x.rep.Transitions += r.Steps
	if len(r.Decisions) > x.rep.MaxDecisions {
		x.rep.MaxDecisions = len(r.Decisions)
	}
	fail := func(format string, args ...any) (vsched.Result, bool) {
		x.rep.Failure = fmt.Sprintf(format, args...)
		x.rep.Choices = choices
		return r, false
	}
	if r.Overflow {
		return fail("does not terminate: too many steps")
	}
	if r.Dead {
		return fail("deadlock: all threads are blocked")
	}
	for i, p := range r.Panics {
		if p != nil {
			return fail("thread %d panicked: %v", i, p)
		}
	}
	out, e := check(r)
	if e != nil {
		return fail("%v", e)
	}
	x.rep.Outcomes[out]++
	if s := raceReport(); s != "" {
		return fail("data race\n%s", s)
	}
	h := uint64(14695981039346656037)
	for _, c := range choices {
		h = (h ^ uint64(c.At)) * 1099511628211
		h = (h ^ uint64(c.Opt)) * 1099511628211
	}
	x.states[h] = struct{}{}
	return r, true
}

func (x *explorer) explore(choices []vsched.Choice, cost int) bool {
	root := len(choices) == 0
	r, ok := x.run(choices)
	if !ok {
		return false
	}
	from := 0
	if !root {
		from = choices[len(choices)-1].At + 1
	}
	child := 0
	for i := from; i < len(r.Decisions); i++ {
		kind, opts := int(r.Decisions[i]>>5), int(r.Decisions[i]&31)
		c := cost
		if kind != vsched.Switch {
			c++
		}
		if c > x.job.Bound {
			continue
		}
		for o := 1; o < opts; o++ {
			child++
			if root && x.job.Shards > 1 && child%x.job.Shards != x.job.Shard {
				continue
			}
			if time.Now().After(x.deadline) {
				x.rep.Truncated = true
				return true
			}
			if !x.explore(append(choices[:len(choices):len(choices)], vsched.Choice{At: i, Opt: o}), c) {
				return false
			}
		}
	}
	return true
}

// expand turns "compile/5-8" into "compile/5", "compile/6", "compile/7".
func expand(name string) []string {
	var from, to int
	if n, _ := fmt.Sscanf(name, "compile/%d-%d", &from, &to); n != 2 {
		return []string{name}
	}
	var res []string
	for i := from; i < to && i < len(descriptions()); i++ {
		res = append(res, fmt.Sprintf("compile/%d", i))
	}
	return res
}

func main() {
	var job Job
	if e := json.Unmarshal([]byte(os.Args[1]), &job); e != nil {
		fmt.Fprintln(os.Stderr, e)
		os.Exit(2)
	}
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(800)
	if job.RaceLog != "" {
		raceLog = fmt.Sprintf("%s.%d", job.RaceLog, os.Getpid())
	}
	x := &explorer{job: job, deadline: time.Now().Add(time.Duration(job.Seconds) * time.Second)}
	x.rep.Outcomes = map[string]int{}
	for _, name := range expand(job.Scenario) {
		sc, e := find(name)
		if e != nil {
			fmt.Fprintln(os.Stderr, e)
			os.Exit(2)
		}
		sc.opts.Fine = job.Fine
		x.sc = sc
		x.states = map[uint64]struct{}{}
		if job.Choices != nil {
			x.run(job.Choices)
		} else if !x.explore(nil, 0) {
			x.rep.Failure = name + ": " + x.rep.Failure
			break
		}
		x.rep.States += len(x.states)
	}
	data, _ := json.Marshal(x.rep)
	os.Stdout.Write(append(data, '\n'))
}
