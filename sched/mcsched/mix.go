package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/ava12/llx/zz_verif/vsched"
	"github.com/ava12/llx/zz_verif/works"
)

// mixScenario runs listed operations at once in a fresh world.
func mixScenario(list string) (sc scenario, e error) {
	ops := works.Ops()
	var wants []string // results of operations alone in fresh processes
	data, e := os.ReadFile(filepath.Join(os.Getenv("MC_TMP"), "alone.json"))
	if e == nil {
		e = json.Unmarshal(data, &wants)
	}
	if e != nil || len(wants) != len(ops) {
		return sc, fmt.Errorf("results of operations alone: %v", e)
	}
	var chosen []works.Op
	var want []string
	for _, i := range strings.Split(list, ",") {
		n, e := strconv.Atoi(i)
		if e != nil || n >= len(ops) {
			return sc, fmt.Errorf("no operation %q", i)
		}
		chosen = append(chosen, ops[n])
		want = append(want, wants[n])
	}
	sc.opts.Preempts = true
	sc.prepare = func() ([]func(), func(vsched.Result) (string, error)) {
		w := works.NewWorld(chosen...)
		got := make([]string, len(chosen))
		ts := make([]func(), len(chosen))
		for i, o := range chosen {
			ts[i] = func() { got[i] = o.Run(w) }
		}
		return ts, func(vsched.Result) (string, error) {
			for i := range got {
				if got[i] != want[i] {
					return "", fmt.Errorf("%s gives another result when run along with others:\n%s\nalone:\n%s", chosen[i].Name, got[i], want[i])
				}
			}
			if e := w.Check(); e != nil {
				return "", e
			}
			return "same", nil
		}
	}
	return sc, nil
}
