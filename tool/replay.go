package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

type caseIn struct {
	con    *Contract
	name   string
	inputs []string
}

type gvResult struct {
	Contract string
	Case     string
	Fails    []string
	Skipped  bool
	Inputs   string
}

// Harness is a test binary of one package with the contracts compiled in as ordinary Go code.
type Harness struct {
	w    *World
	rel  string
	dir  string
	bin  string
	test string // source of the generated test file
	err  string
	cmd  string
}

// buildHarness compiles the package of the current tree together with the contracts (through a build
// overlay, nothing is written to the repository) and a test that runs the given cases.
func buildHarness(w *World, rel string, cases []caseIn, imports map[string]string, reg []*Contract) *Harness {
	h := &Harness{w: w, rel: rel}
	dir, err := os.MkdirTemp(scratchDir, "h")
	if err != nil {
		h.err = err.Error()
		return h
	}
	h.dir = dir
	repl := map[string]string{}
	pkgName := ""
	var keys []string
	for f := range w.over {
		keys = append(keys, f)
	}
	sort.Strings(keys)
	for i, f := range keys {
		src := filepath.Join(dir, fmt.Sprintf("o%d_%s", i, filepath.Base(f)))
		os.WriteFile(src, w.over[f], 0o644)
		repl[f] = src
		if filepath.Dir(f) == filepath.Join(w.gomod, rel) {
			first := string(w.over[f])
			for _, l := range strings.Split(first, "\n") {
				if strings.HasPrefix(l, "package ") {
					pkgName = strings.Fields(l)[1]
					break
				}
			}
		}
	}
	tmpl, err := os.ReadFile(filepath.Join(w.verif, "tool", "lib", "gv_test.go.txt"))
	if err != nil {
		h.err = err.Error()
		return h
	}
	var cs, im, rg strings.Builder
	have := map[string]bool{"encoding/json": true, "fmt": true, "math/rand": true, "os": true, "reflect": true, "strconv": true, "strings": true, "testing": true, "time": true, "unsafe": true}
	var ips []string
	for p := range imports {
		ips = append(ips, p)
	}
	sort.Strings(ips)
	for _, p := range ips {
		if !have[p] {
			fmt.Fprintf(&im, "\t%s %q\n", imports[p], p)
		}
	}
	for i, c := range cases {
		fmt.Fprintf(&cs, "\tgvCase(%q, %q, func() {\n\t\t%s(\n", c.con.name, c.name, c.con.name)
		for _, in := range c.inputs {
			fmt.Fprintf(&cs, "\t\t\t%s,\n", in)
		}
		fmt.Fprintf(&cs, "\t\t)\n\t})\n")
		_ = i
	}
	for _, c := range reg {
		fmt.Fprintf(&rg, "\t%q: %s,\n", c.name, c.name)
	}
	src := string(tmpl)
	src = strings.Replace(src, "package PKG", "package "+pkgName, 1)
	src = strings.Replace(src, "\nIMPORTS\n", "\n"+im.String(), 1)
	src = strings.Replace(src, "\nCASES\n", "\n"+cs.String(), 1)
	src = strings.Replace(src, "\nREGISTRY\n", "\n"+rg.String(), 1)
	h.test = src
	tf := filepath.Join(dir, "gvc_replay_test.go")
	os.WriteFile(tf, []byte(src), 0o644)
	repl[filepath.Join(w.gomod, rel, "gvc_replay_test.go")] = tf
	ov, _ := json.Marshal(map[string]interface{}{"Replace": repl})
	of := filepath.Join(dir, "overlay.json")
	os.WriteFile(of, ov, 0o644)
	h.bin = filepath.Join(dir, "t.bin")
	ctx, cancel := context.WithTimeout(context.Background(), 300*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "go", "test", "-c", "-overlay", of, "-vet=off", "-o", h.bin, w.pkgPathOf(rel))
	cmd.Dir = w.gomod
	cmd.Env = goEnv()
	out, err := cmd.CombinedOutput()
	if err != nil {
		h.err = fmt.Sprintf("go test -c: %v\n%s", err, out)
		h.bin = ""
	}
	return h
}

func (h *Harness) run(timeout time.Duration, env []string, args ...string) (string, bool) {
	if h.bin == "" {
		return h.err, false
	}
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	sh := fmt.Sprintf("ulimit -v 16000000; exec %s -test.count=1 %s", h.bin, strings.Join(args, " "))
	cmd := exec.CommandContext(ctx, "bash", "-c", sh)
	cmd.Dir = h.dir
	cmd.Env = append(goEnv(), env...)
	cmd.WaitDelay = time.Second
	var buf bytes.Buffer
	cmd.Stdout, cmd.Stderr = &buf, &buf
	err := cmd.Run()
	return buf.String(), err == nil
}

func parseResults(out string) []gvResult {
	var rs []gvResult
	for _, l := range strings.Split(out, "\n") {
		if i := strings.Index(l, "GVRESULT "); i >= 0 {
			var r gvResult
			if json.Unmarshal([]byte(l[i+9:]), &r) == nil {
				rs = append(rs, r)
			}
		}
	}
	return rs
}

// crashKind classifies a process that died without reporting.
func crashKind(out string) string {
	switch {
	case strings.Contains(out, "out of memory"), strings.Contains(out, "cannot allocate memory"):
		return ""
	case strings.Contains(out, "stack overflow"), strings.Contains(out, "goroutine stack exceeds"):
		return "no panic: fatal error: stack overflow"
	case strings.Contains(out, "fatal error: all goroutines are asleep"):
		return "never blocks for ever: all goroutines are asleep"
	case strings.Contains(out, "fatal error: sync:"):
		return "no panic: fatal error: sync misuse"
	case strings.Contains(out, "fatal error: concurrent map"):
		return "no panic: fatal error: concurrent map access"
	case strings.Contains(out, "\npanic: "), strings.Contains(out, "panic: "):
		return "no panic: a goroutine panicked"
	case strings.Contains(out, "SIGSEGV"):
		return "no panic: memory fault"
	}
	return ""
}

func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

type sampleStat struct {
	ran, skipped int
	fail         *gvResult
	note         string
}

// sample runs one contract on pseudo-random inputs.
func (h *Harness) sample(con *Contract, n int, seed int64, budget time.Duration) sampleStat {
	env := []string{fmt.Sprintf("GV_N=%d", n), fmt.Sprintf("GV_SEED=%d", seed), fmt.Sprintf("GV_MS=%d", budget.Milliseconds()), "GV_NAMES=" + con.name}
	out, _ := h.run(budget+30*time.Second, env, "-test.run=TestGvSample")
	var st sampleStat
	for _, r := range parseResults(out) {
		if len(r.Fails) > 0 {
			r := r
			st.fail = &r
			return st
		}
	}
	for _, l := range strings.Split(out, "\n") {
		var name string
		var a, b int
		if k, _ := fmt.Sscanf(l, "GVSAMPLED %s %d %d", &name, &a, &b); k == 3 {
			st.ran, st.skipped = a, b
			return st
		}
	}
	if kind := crashKind(out); kind != "" {
		out2, _ := h.run(budget+30*time.Second, append(env, "GV_TRACE=1"), "-test.run=TestGvSample")
		last := ""
		for _, l := range strings.Split(out2, "\n") {
			if strings.HasPrefix(l, "GVTRACE ") {
				last = l[8:]
			}
		}
		st.fail = &gvResult{Contract: con.name, Case: fmt.Sprintf("sample seed=%d", seed), Fails: []string{kind}, Inputs: last}
		return st
	}
	st.note = "sampling run ended without a result: " + tail(out, 300)
	return st
}
