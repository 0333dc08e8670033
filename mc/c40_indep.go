package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"

	"github.com/ava12/llx/zz_verif/works"
)

func init() {
	register("C40", "every sequence of operations up to a length bound in one process (compilations of valid and invalid descriptions, creation of parsers for shared grammars, parses and requests of shared parsers, building, changing and querying trees with shared selectors, "+
		"reading with a shared lexer, work with own sources) and every schedule of two or three of them up to a bound of preemptions on an instrumented build under the race detector; every result compared with the result of the same operation alone in a fresh world", runC40)
}

type opsCase struct{ Ops []int }

func (c opsCase) Key() string { return fmt.Sprint(c.Ops) }

// runOp performs one operation in this process, see alone.
func runOp(i string) {
	n, _ := strconv.Atoi(i)
	o := works.Ops()[n]
	os.Stdout.WriteString(o.Run(works.NewWorld(o)))
}

// alone runs every operation in a process of its own.
func alone(ops []works.Op) []string {
	res := make([]string, len(ops))
	self, e := os.Executable()
	var wg sync.WaitGroup
	slots := make(chan struct{}, runtime.NumCPU())
	for i := range ops {
		wg.Add(1)
		go func() {
			defer wg.Done()
			slots <- struct{}{}
			defer func() { <-slots }()
			var out, err bytes.Buffer
			cmd := exec.Command(self, "op", strconv.Itoa(i))
			cmd.Stdout, cmd.Stderr = &out, &err
			if ee := cmd.Run(); ee != nil || e != nil {
				res[i] = fmt.Sprintln("died:", e, ee, firstLines(err.String(), 4))
				return
			}
			res[i] = out.String()
		}()
	}
	wg.Wait()
	data, _ := json.Marshal(res)
	if e = os.WriteFile(filepath.Join(os.Getenv("MC_TMP"), "alone.json"), data, 0o644); e != nil {
		fmt.Fprintln(os.Stderr, e)
		os.Exit(2)
	}
	return res
}

func runC40(r *Run) {
	ops := works.Ops()
	want := alone(ops)
	for i := range want {
		if strings.HasPrefix(want[i], "died:") {
			panic(fmt.Sprintf("operation %s: %s", ops[i].Name, want[i]))
		}
	}
	n := len(ops)
	Explore(r, "sequences of operations", func(emit func(opsCase) bool) {
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				if !r.Thorough {
					if !emit(opsCase{[]int{i, j, i}}) {
						return
					}
					continue
				}
				for k := 0; k < n; k++ {
					if !emit(opsCase{[]int{i, j, k, i}}) {
						return
					}
				}
			}
		}
	}, func(w *W, c opsCase) error {
		var list []works.Op
		for _, i := range c.Ops {
			list = append(list, ops[i])
		}
		world := works.NewWorld(list...)
		key := ""
		for k, i := range c.Ops {
			if got := ops[i].Run(world); got != want[i] {
				return fmt.Errorf("operation %d (%s) after others %v gives\n%s\nalone:\n%s", k, ops[i].Name, c.Ops[:k], got, want[i])
			}
			key += fmt.Sprint(",", i)
			w.State(key)
			w.Trans(1)
		}
		if e := world.Check(); e != nil {
			return e
		}
		w.Trace()
		return nil
	})
	Explore(r, "pairs in fresh processes", func(emit func(schedCase) bool) {
		for _, pr := range pairs(n) {
			if !emit(schedCase{"mix/" + pr, 0, false, 0, 1}) {
				return
			}
		}
	}, runSched)
	if r.Thorough {
		Explore(r, "triples in fresh processes", func(emit func(schedCase) bool) {
			for i := 0; i < n; i++ {
				for j := i; j < min(n, i+6); j++ {
					for k := j; k < min(n, j+6); k++ {
						if !emit(schedCase{fmt.Sprintf("mix/%d,%d,%d", i, j, k), 0, false, 0, 1}) {
							return
						}
					}
				}
			}
		}, runSched)
		Explore(r, "schedules, all statements", func(emit func(schedCase) bool) {
			const shards = 6
			for i := 0; i < n; i += 3 {
				for k := 0; k < shards; k++ {
					if !emit(schedCase{fmt.Sprintf("mix/%d,%d", i, min(n-1, i+1)), 1, true, k, shards}) {
						return
					}
				}
			}
		}, runSched)
	}
	Explore(r, "schedules, shared data", func(emit func(schedCase) bool) {
		for d := 0; d < Pick(r, 2, 9); d++ {
			for i := 0; i+d < n; i++ {
				if !emit(schedCase{fmt.Sprintf("mix/%d,%d", i, i+d), 1, false, 0, 1}) {
					return
				}
			}
		}
	}, runSched)
}
