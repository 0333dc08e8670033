package main

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

// Some failures of the code under test cannot be recovered inside the process (stack overflow,
// concurrent map access detected by the runtime, a global deadlock). The exploration therefore runs in a child
// process; when the child dies of such a failure it is rerun with one worker and a journal naming
// the case being executed, and that case is reported.
var fatalMarks = []string{
	"stack overflow", "goroutine stack exceeds", "concurrent map", "all goroutines are asleep",
	"unexpected signal", "sync: unlock of unlocked", "sync: RUnlock of unlocked", "sync: Unlock of unlocked",
}

func parent(id, dir string) {
	code, stderr := runChild("")
	if code == 0 || code == 1 {
		os.Exit(code)
	}
	mark := ""
	for _, m := range fatalMarks {
		if strings.Contains(stderr, m) {
			mark = m
			break
		}
	}
	if mark == "" {
		fmt.Fprintf(os.Stderr, "mc: child ended with code %d\n", code)
		os.Exit(2)
	}
	repDir := filepath.Join(dir, "evidence", "replay")
	_ = os.MkdirAll(repDir, 0o755)
	path := filepath.Join(repDir, id+"-crash.json")
	_ = os.Remove(path)
	code2, stderr2 := runChild(path)
	if code2 == 0 {
		fmt.Fprintln(os.Stderr, "mc: the crash did not reproduce")
		os.Exit(2)
	}
	if code2 == 1 {
		os.Exit(1)
	}
	if _, e := os.Stat(path); e != nil {
		_ = os.WriteFile(path, []byte(stderr2), 0o644)
	}
	fmt.Printf("the process running the code under test was killed by the runtime: %s\n", mark)
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
	os.Exit(1)
}

func runChild(journal string) (int, string) {
	cmd := exec.Command(os.Args[0], os.Args[1:]...)
	cmd.Env = append(os.Environ(), "MC_CHILD=1")
	if journal != "" {
		cmd.Env = append(cmd.Env, "MC_JOURNAL="+journal)
	}
	cmd.Stdout = os.Stdout
	var tail tailWriter
	cmd.Stderr = io.MultiWriter(&tail)
	e := cmd.Run()
	if e == nil {
		return 0, ""
	}
	os.Stderr.Write(tail.head.Bytes())
	if ee, ok := e.(*exec.ExitError); ok {
		return ee.ExitCode(), tail.head.String()
	}
	return 2, e.Error()
}

type tailWriter struct{ head bytes.Buffer }

func (t *tailWriter) Write(p []byte) (int, error) {
	if n := 8<<10 - t.head.Len(); n > 0 {
		if len(p) < n {
			n = len(p)
		}
		t.head.Write(p[:n])
	}
	return len(p), nil
}
