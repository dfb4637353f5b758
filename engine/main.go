package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/pprof"
	"sort"
	"strings"
	"time"
)

var goEnvCache = map[string]string{}

func goEnv(k string) string {
	if v, ok := goEnvCache[k]; ok {
		return v
	}
	c := exec.Command("go", "env", k)
	c.Dir = repoDir
	b, _ := c.Output()
	v := strings.TrimSpace(string(b))
	goEnvCache[k] = v
	return v
}

func main() {
	if f := os.Getenv("VERIF_PROF"); f != "" {
		fh, _ := os.Create(f)
		pprof.StartCPUProfile(fh)
		defer pprof.StopCPUProfile()
	}
	if len(os.Args) < 2 {
		fmt.Println("usage: engine check PROP [tier] | debug PROP [harness]")
		os.Exit(2)
	}
	done := ownModfile()
	switch os.Args[1] {
	case "debug":
		defer done()
		only := ""
		if len(os.Args) > 3 {
			only = os.Args[3]
		}
		debugRun(os.Args[2], only)
	case "replay":
		code := replayMain(os.Args[2])
		done()
		os.Exit(code)
	case "check":
		tier := os.Getenv("VERIF_TIER")
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		if tier == "" {
			tier = "quick"
		}
		code := checkMain(os.Args[2], tier)
		pprof.StopCPUProfile()
		done()
		os.Exit(code)
	}
}

// ownModfile makes go commands use a copy of the repository's go.mod and go.sum,
// which -mod=mod may rewrite.
func ownModfile() func() {
	d, err := os.MkdirTemp("", "verif-mod-")
	if err != nil {
		return func() {}
	}
	for _, f := range []string{"go.mod", "go.sum"} {
		b, _ := os.ReadFile(filepath.Join(repoDir, f))
		os.WriteFile(filepath.Join(d, f), b, 0644)
	}
	for _, k := range []string{"GOROOT", "GOMODCACHE"} {
		goEnv(k)
	}
	os.Setenv("GOFLAGS", strings.TrimSpace(os.Getenv("GOFLAGS")+" -modfile="+filepath.Join(d, "go.mod")))
	return func() { os.RemoveAll(d) }
}

func debugRun(prop, only string) {
	t0 := time.Now()
	w, err := LoadWorld(prop)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	for _, d := range w.dropped {
		fmt.Println("DROPPED", d)
	}
	fmt.Println("loaded", time.Since(t0))
	tier = os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	nw := 8
	if x := os.Getenv("VERIF_WORKERS"); x != "" {
		fmt.Sscan(x, &nw)
	}
	for _, h := range w.harness {
		if only != "" && h.Name != only {
			continue
		}
		sec := h.Time
		if x := os.Getenv("VERIF_TIME"); x != "" {
			fmt.Sscan(x, &sec)
		}
		st := w.Explore(h, RunOpts{Workers: nw, Deadline: time.Now().Add(time.Duration(sec) * time.Second), Samples: 2, Seed: 1, SolverMS: 3000, FbSecs: 10, MaxCex: 2})
		fmt.Printf("== %s: paths %d completed %d infeasible %d instr %d forks %d proved %d trivial %d exhausted %v left %d wall %v\n", h.Name, st.Paths, st.Completed, st.Infeasible, st.Instr, st.Forks, st.AssertProved, st.AssertTrivial, st.Exhausted, st.Left, st.Wall)
		fmt.Printf("   queries %+v\n", st.Queries)
		fmt.Printf("   asserts %v\n   covers %v\n", st.AssertLabels, st.Covers)
		for k, m := range st.Notes {
			for x, n := range m {
				if len(x) > 2500 {
					x = x[:2500]
				}
				fmt.Printf("   %s x%d: %s\n", k, n, x)
			}
		}
		for _, c := range st.Cexs {
			fmt.Printf("   CEX %s known=%q %v\n      %v\n", c.Label, c.Known, c.Values, c.Trace)
		}
		for i, s := range st.Samples {
			if i < 2 {
				fmt.Printf("   sample %v obs %v\n", s.Values, s.Obs)
			}
		}
		type kv struct {
			k string
			n int
		}
		var fs []kv
		for k, n := range st.ForkSites {
			fs = append(fs, kv{k, n})
		}
		sort.Slice(fs, func(i, j int) bool { return fs[i].n > fs[j].n })
		for i, f := range fs {
			if i < 8 {
				fmt.Printf("   fork %6d %s\n", f.n, f.k)
			}
		}
		if os.Getenv("VERIF_DEBUG") != "" {
			fmt.Println("   stripped globals", w.stripped)
		}
	}
}

var tier = "quick"
