package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strings"
	"time"

	"github.com/ava12/llx/parser"
	"github.com/ava12/llx/zz_verif/works"
)

func init() {
	register("C26", "every sequence of parses up to a length bound on one parser (valid and invalid texts, known and new literals in hooks, errors, panics and cancellations raised by hooks), every nested parse at every event, "+
		"every schedule of two or three parses up to a bound of preemptions on an instrumented build under the race detector; every result compared with the same parse on a fresh parser", runC26)
	register("C11", "every order of iteration over every map (all permutations of up to 4 elements, reversals and moves of each element to either end for more) for up to a bound of iterations at once, during compilation of all descriptions "+
		"built of three nodes with all combinations of definitions, and during creation and use of parsers; grammars, errors and results must not depend on the order", runC11)
	register("C27", "every schedule up to a bound of preemptions of threads performing lists of registrations and parser creations (also from inside of a layer template), under the race detector; "+
		"results compared with a map: some sequential order must explain them, nothing registered is lost, no thread blocks forever", runC27)
}

// schedCase is a job for the schedule explorer.
type schedCase struct {
	Scenario      string
	Bound         int
	Fine          bool `json:",omitempty"`
	Shard, Shards int  `json:",omitempty"`
}

func (c schedCase) Key() string {
	return fmt.Sprintf("%s bound=%d fine=%v shard=%d/%d", c.Scenario, c.Bound, c.Fine, c.Shard, c.Shards)
}

// Slow cases are handed to workers one at a time.
func (c schedCase) Slow() {}

type schedReport struct {
	Schedules, Transitions, States, MaxDecisions int
	Truncated                                    bool
	Failure                                      string
	Choices                                      []struct{ At, Opt int }
	Outcomes                                     map[string]int
}

// runSched explores schedules in a separate process running instrumented code.
func runSched(w *W, c schedCase) error {
	dir, e := os.MkdirTemp("", "mcs")
	if e != nil {
		return e
	}
	defer os.RemoveAll(dir)
	left := int(time.Until(w.run.deadline) / time.Second)
	if w.run.replay != nil {
		left = 36
	}
	job, _ := json.Marshal(map[string]any{"Scenario": c.Scenario, "Bound": c.Bound, "Fine": c.Fine, "Shard": c.Shard, "Shards": c.Shards,
		"RaceLog": filepath.Join(dir, "race"), "Seconds": max(0, min(36, left))})
	ctx, cancel := context.WithTimeout(context.Background(), 39*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, os.Getenv("MC_SCHED"), string(job))
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 atexit_sleep_ms=0 exitcode=0 log_path="+filepath.Join(dir, "race"))
	var stdout, stderr bytes.Buffer
	cmd.Stdout, cmd.Stderr = &stdout, &stderr
	e = cmd.Run()
	if ctx.Err() != nil {
		w.truncated = true
		w.Outcome("stuck outside of controlled primitives")
		return nil
	}
	var rep schedReport
	if je := json.Unmarshal(stdout.Bytes(), &rep); je != nil || e != nil {
		text := stderr.String()
		for _, m := range fatalMarks {
			if strings.Contains(text, m) {
				return fmt.Errorf("process killed by the runtime: %s\n%s", m, firstLines(text, 30))
			}
		}
		if strings.Contains(text, "panic:") {
			return fmt.Errorf("%s", firstLines(text, 30))
		}
		fmt.Fprintf(os.Stderr, "explorer of schedules: %v\n%s\n", e, text)
		os.Exit(2)
	}
	w.Trans(rep.Transitions)
	w.traces += int64(rep.Schedules)
	w.extraStates += int64(rep.States)
	for k, n := range rep.Outcomes {
		w.outcomes[k] += int64(n)
	}
	if rep.Truncated {
		w.truncated = true
	}
	if rep.Failure != "" {
		return fmt.Errorf("schedule %v of %s: %s", rep.Choices, c.Scenario, rep.Failure)
	}
	return nil
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

func pairs(n int) []string {
	var res []string
	for i := 0; i < n; i++ {
		for j := i; j < n; j++ {
			res = append(res, fmt.Sprintf("%d,%d", i, j))
		}
	}
	return res
}

type reuseCase struct {
	Subject int
	Works   []int
}

func (c reuseCase) Key() string { return fmt.Sprintf("%s %v", works.Subjects[c.Subject].Name, c.Works) }

type nestCase struct{ Subject, Outer, Inner int }

func runC26(r *Run) {
	n := len(works.Subjects)
	lists := make([][]works.Work, n)
	want := make([][]string, n)
	for i, s := range works.Subjects {
		lists[i] = s.Works()
		for _, w := range lists[i] {
			want[i] = append(want[i], w.Run(works.NewParser(s.Compile())))
		}
	}
	length := Pick(r, 3, 4)
	Explore(r, "sequences of parses", func(emit func(reuseCase) bool) {
		for i := range lists {
			// only maximal sequences: results of all their prefixes are compared on the way
			idx := make([]int, length)
			for {
				if !emit(reuseCase{i, append([]int(nil), idx...)}) {
					return
				}
				k := length - 1
				for ; k >= 0; k-- {
					idx[k]++
					if idx[k] < len(lists[i]) {
						break
					}
					idx[k] = 0
				}
				if k < 0 {
					break
				}
			}
		}
	}, func(w *W, c reuseCase) error {
		s := works.Subjects[c.Subject]
		clean := s.Compile()
		g := works.Clone(clean)
		p := works.NewParser(g)
		key := s.Name
		for k, i := range c.Works {
			got := lists[c.Subject][i].Run(p)
			if got != want[c.Subject][i] {
				return fmt.Errorf("parse %d (%s) after others gives\n%s\nalone:\n%s", k, lists[c.Subject][i].Name, got, want[c.Subject][i])
			}
			key += fmt.Sprint(",", i)
			w.State(key)
			w.Trans(1)
		}
		if !reflect.DeepEqual(g, clean) {
			return fmt.Errorf("the grammar is changed")
		}
		w.Trace()
		w.Outcome(s.Name)
		return nil
	})

	Explore(r, "nested parses", func(emit func(nestCase) bool) {
		for i := range lists {
			for o := range works.Subjects[i].Valid {
				for k := range lists[i] {
					if !emit(nestCase{i, o, k}) {
						return
					}
				}
			}
		}
	}, func(w *W, c nestCase) error {
		s := works.Subjects[c.Subject]
		inner := lists[c.Subject][c.Inner]
		var p *parser.Parser
		outer := func(after int) (string, []string) {
			var got []string
			p = works.NewParser(s.Compile())
			out := works.Nested("o", s.Valid[c.Outer], after, inner, func(x string) { got = append(got, x) }).Run(p)
			return out, got
		}
		plain, _ := outer(-1)
		for after := 0; ; after++ {
			out, got := outer(after)
			if out != plain {
				return fmt.Errorf("a parse interrupted by %s after %d events gives\n%s\nalone:\n%s", inner.Name, after, out, plain)
			}
			for _, x := range got {
				if x != want[c.Subject][c.Inner] {
					return fmt.Errorf("parse %s from inside of another one after %d events gives\n%s\nalone:\n%s", inner.Name, after, x, want[c.Subject][c.Inner])
				}
			}
			if after > 0 && len(got) == 0 {
				break
			}
			w.State(fmt.Sprint(c, after))
			w.Trans(1 + len(got))
		}
		w.Trace()
		return nil
	})

	Explore(r, "schedules, shared data", func(emit func(schedCase) bool) {
		for _, s := range works.Subjects {
			for _, pr := range pairs(len(s.SmallWorks())) {
				if !emit(schedCase{"parse/" + s.Name + "/small/" + pr, 1, false, 0, 1}) {
					return
				}
			}
		}
	}, runSched)

	Explore(r, "schedules, all statements", func(emit func(schedCase) bool) {
		for _, s := range works.Subjects {
			for _, pr := range Pick(r, []string{"1,2"}, pairs(len(s.SmallWorks()))) {
				if !emit(schedCase{"parse/" + s.Name + "/small/" + pr, 1, true, 0, 1}) {
					return
				}
			}
		}
	}, runSched)

	if r.Thorough {
		Explore(r, "schedules, big parses", func(emit func(schedCase) bool) {
			for _, s := range works.Subjects {
				for _, pr := range pairs(10) {
					if !emit(schedCase{"parse/" + s.Name + "/big/" + pr, 1, false, 0, 1}) {
						return
					}
				}
			}
		}, runSched)
		Explore(r, "schedules, three parses", func(emit func(schedCase) bool) {
			for _, s := range works.Subjects {
				for _, tr := range []string{"0,1,2", "1,1,1", "1,3,4", "2,3,5"} {
					for i := 0; i < 4; i++ {
						if !emit(schedCase{"parse/" + s.Name + "/small/" + tr, 1, false, i, 4}) {
							return
						}
					}
				}
			}
		}, runSched)
		Explore(r, "schedules, two preemptions", func(emit func(schedCase) bool) {
			for _, pr := range []string{"1,1", "1,2"} {
				for _, s := range works.Subjects {
					const shards = 24
					for i := 0; i < shards; i++ {
						if !emit(schedCase{"parse/" + s.Name + "/small/" + pr, 2, false, i, shards}) {
							return
						}
					}
				}
			}
		}, runSched)
	}
}

func runC11(r *Run) {
	// 15 bodies for each of three nodes and a list of special descriptions
	const total, block = 15*15*15 + 16, 16
	Explore(r, "compilation", func(emit func(schedCase) bool) {
		for i := 0; i < total; i += block {
			if !emit(schedCase{fmt.Sprintf("compile/%d-%d", i, i+block), Pick(r, 1, 2), false, 0, 1}) {
				return
			}
		}
	}, runSched)
	Explore(r, "parsing", func(emit func(schedCase) bool) {
		for _, s := range works.Subjects {
			for i := range s.Works() {
				if !emit(schedCase{fmt.Sprintf("orders/%s/%d", s.Name, i), Pick(r, 1, 2), false, 0, 1}) {
					return
				}
			}
		}
	}, runSched)
}

func runC27(r *Run) {
	ops := []string{"ra.1", "ra.2", "rb.3", "na", "nab", "nba", "oab.7", "sb.4", "xa"}
	Explore(r, "pairs of operations", func(emit func(schedCase) bool) {
		for i, a := range ops {
			for _, b := range ops[i:] {
				if !emit(schedCase{"layers/" + a + "/" + b, Pick(r, 2, 3), true, 0, 1}) {
					return
				}
			}
		}
	}, runSched)
	var lists []string
	for _, a := range ops {
		for _, b := range ops {
			lists = append(lists, a+"+"+b)
		}
	}
	Explore(r, "two threads, two operations", func(emit func(schedCase) bool) {
		for i, a := range lists {
			for j, b := range lists {
				if j < i || !r.Thorough && !(strings.Contains(a, "r") && strings.ContainsAny(b, "rs") && (i+j)%4 == 0) {
					continue
				}
				if !emit(schedCase{"layers/" + a + "/" + b, 1, true, 0, 1}) {
					return
				}
			}
		}
	}, runSched)
	Explore(r, "three threads", func(emit func(schedCase) bool) {
		for i, a := range ops {
			for j, b := range ops[i:] {
				for _, c := range ops[i+j:] {
					if !r.Thorough && !(a[0] == 'r' && strings.ContainsAny(b, "rs")) {
						continue
					}
					if !emit(schedCase{"layers/" + a + "/" + b + "/" + c, Pick(r, 1, 2), false, 0, 1}) {
						return
					}
				}
			}
		}
	}, runSched)
}
