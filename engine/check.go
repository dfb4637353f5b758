package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"
)

type knownFinding struct {
	prop, id, text string
}

// readKnown reads known-findings.txt: "known: property=C01 id=some-id text".
func readKnown() []knownFinding {
	b, _ := os.ReadFile(filepath.Join(verifDir, "known-findings.txt"))
	re := regexp.MustCompile(`^known: property=(\S+) id=(\S+) (.*)$`)
	var r []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(strings.TrimSpace(l)); m != nil {
			r = append(r, knownFinding{m[1], m[2], m[3]})
		}
	}
	return r
}

type replayFile struct {
	Property string            `json:"property"`
	Harness  string            `json:"harness"`
	Label    string            `json:"label"`
	Kind     string            `json:"kind"`
	Tier     string            `json:"tier"`
	Values   map[string]string `json:"values"`
	Trace    []string          `json:"trace"`
	Native   interface{}       `json:"native_result"`
}

type harnessReport struct {
	Name           string           `json:"harness"`
	What           string           `json:"what"`
	Bounds         []string         `json:"bounds"`
	BoundValues    map[string]int64 `json:"bound_values,omitempty"`
	Paths          int              `json:"paths"`
	Completed      int              `json:"paths_completed"`
	Infeasible     int              `json:"paths_infeasible"`
	Instr          int64            `json:"instructions"`
	Forks          int64            `json:"forks"`
	Exhausted      bool             `json:"all_paths_within_bounds_explored"`
	Left           int              `json:"prefixes_left"`
	Asserts        map[string]int   `json:"assertions_reached"`
	Proved         int              `json:"assertions_discharged_by_solver"`
	Trivial        int              `json:"assertions_discharged_by_simplification"`
	Covers         map[string]int   `json:"reachability_witnesses"`
	Queries        int              `json:"queries"`
	Sat            int              `json:"sat"`
	Unsat          int              `json:"unsat"`
	Unknown        int              `json:"unknown"`
	SolverS        float64          `json:"solver_s"`
	WallS          float64          `json:"wall_s"`
	Outside        map[string]int   `json:"outside_the_claim,omitempty"`
	Replayed       int              `json:"paths_replayed_natively"`
	Matched        int              `json:"paths_matching_native_run"`
	Mismatch       []string         `json:"native_mismatches,omitempty"`
	Unconfirmed    []string         `json:"counterexamples_not_reproduced,omitempty"`
	Functions      []string         `json:"functions_encoded"`
	VacuityWarning string           `json:"vacuity_warning,omitempty"`
}

func envInt(k string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return d
}

func confirmed(c *Cex, r nativeResult) bool {
	if r.Assumed {
		return false
	}
	switch c.Kind {
	case "assert":
		for _, f := range r.Failed {
			if f == c.Label {
				return true
			}
		}
		return false
	case "panic":
		// A run that the crash of another goroutine cuts short may fail an
		// assertion on the same input first.
		return r.Panic != "" || (r.Crashed != "" && r.Crashed != "hang") || len(r.Failed) > 0
	case "endless":
		return r.Crashed != ""
	case "deadlock":
		return strings.Contains(r.Panic, "deadlock") || r.Crashed == "hang"
	}
	return false
}

func checkMain(prop, t string) int {
	t0 := time.Now()
	tier = t
	seed := envInt("VERIF_SEED", 1)
	evDir := filepath.Join(verifDir, "evidence")
	os.MkdirAll(evDir, 0755)
	evFile := filepath.Join(evDir, prop+".json")
	os.Remove(evFile)
	known := readKnown()
	w, err := LoadWorld(prop)
	if err != nil {
		// The encoding could not be regenerated: nothing is claimed.
		fmt.Printf("INCONCLUSIVE property=%s the current tree could not be encoded: %v\n", prop, err)
		writeJSON(evFile, map[string]interface{}{"property": prop, "tier": t, "seed": seed, "level": "model_checking",
			"coverage": map[string]interface{}{"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []string{}, "error": err.Error()},
			"wall_s":   time.Since(t0).Seconds(), "violations": 0})
		return 0
	}
	loadS := time.Since(t0).Seconds()
	nat := w.StartNative()
	defer nat.Close()
	workers := envInt("VERIF_WORKERS", runtime.NumCPU())
	if workers > 8 {
		workers = 8
	}
	budget := 240 * time.Second
	if t == "thorough" {
		budget = 780 * time.Second
	}
	end := t0.Add(budget)
	var hs []*HarnessFn
	sumT := 0
	for _, h := range w.harness {
		if h.Tiers != "" && h.Tiers != t {
			continue
		}
		hs = append(hs, h)
		sumT += h.Time
	}
	type found struct {
		h *HarnessFn
		c *Cex
	}
	var cexs []found
	var reps []*harnessReport
	var jobs []Job
	type jref struct {
		rep *harnessReport
		s   *PathSample
		f   *found
	}
	var refs []jref
	totalPaths, totalInstr := 0, int64(0)
	var samplesOut []interface{}
	var assumptions []string
	aset := map[string]bool{}
	for _, h := range hs {
		left := time.Until(end) - 25*time.Second
		if left < 5*time.Second {
			left = 5 * time.Second
		}
		slot := time.Duration(h.Time) * time.Second
		if t == "thorough" {
			// share what is left by weight
			slot = time.Duration(float64(left) * float64(h.Time) / float64(sumT))
		}
		sumT -= h.Time
		if slot > left {
			slot = left
		}
		ns := 6
		if t == "thorough" {
			ns = 12
		}
		st := w.Explore(h, RunOpts{Workers: workers, Deadline: time.Now().Add(slot), Samples: ns, Seed: int64(seed), SolverMS: 3000, FbSecs: 10, MaxCex: 4, Tier: t})
		r := &harnessReport{Name: h.Name, What: strings.TrimSpace(h.Doc), Bounds: h.Bounds, BoundValues: st.Bounds, Paths: st.Paths, Completed: st.Completed, Infeasible: st.Infeasible,
			Instr: st.Instr, Forks: st.Forks, Exhausted: st.Exhausted && len(st.Notes) == 0, Left: st.Left, Asserts: st.AssertLabels, Proved: st.AssertProved, Trivial: st.AssertTrivial, Covers: st.Covers,
			Queries: st.Queries.Queries, Sat: st.Queries.Sat, Unsat: st.Queries.Unsat, Unknown: st.Queries.Unknown, SolverS: st.Queries.Time.Seconds(), WallS: st.Wall.Seconds()}
		for k, m := range st.Notes {
			for x, n := range m {
				if len(x) > 300 {
					x = x[:300]
				}
				if r.Outside == nil {
					r.Outside = map[string]int{}
				}
				r.Outside[k+": "+x] += n
			}
		}
		if !st.Exhausted {
			if r.Outside == nil {
				r.Outside = map[string]int{}
			}
			r.Outside["time: path prefixes not explored"] = st.Left
		}
		if st.Completed == 0 || len(st.AssertLabels) == 0 {
			r.VacuityWarning = "no path reached an assertion"
		}
		for f := range st.Funcs {
			n := f.String()
			if strings.Contains(n, modPath) && !strings.Contains(w.fset.Position(f.Pos()).Filename, "zz_verif_") && !strings.Contains(n, "/internal/verifnd") && f.Synthetic == "" {
				r.Functions = append(r.Functions, strings.ReplaceAll(n, modPath+"/", ""))
			}
		}
		sort.Strings(r.Functions)
		for _, a := range h.Assume {
			if !aset[a] {
				aset[a] = true
				assumptions = append(assumptions, a)
			}
		}
		reps = append(reps, r)
		totalPaths += st.Paths
		totalInstr += st.Instr
		sort.SliceStable(st.Cexs, func(i, j int) bool { return st.Cexs[i].Known < st.Cexs[j].Known })
		perLabel := map[string]int{}
		for _, c := range st.Cexs {
			k := c.Label + "|" + c.Known
			perLabel[k]++
			if perLabel[k] > 4 || c.Kind == "endless" && perLabel[k] > 1 {
				continue
			}
			f := &found{h, c}
			cexs = append(cexs, *f)
			jobs = append(jobs, Job{h.Name, c.Values})
			refs = append(refs, jref{rep: r, f: f})
		}
		rest := st.Samples
		if len(rest) > ns*2 {
			rest = rest[:ns*2]
		}
		if h.Replays > 0 && len(rest) > h.Replays {
			rest = rest[:h.Replays]
		}
		for i := range rest {
			if rest[i].Values == nil {
				continue
			}
			jobs = append(jobs, Job{h.Name, rest[i].Values})
			refs = append(refs, jref{rep: r, s: &rest[i]})
		}
		if len(rest) > 0 {
			samplesOut = append(samplesOut, map[string]interface{}{"harness": h.Name, "input": rest[0].Values, "observed": rest[0].Obs})
		}
	}
	res, nerr := nat.Run(jobs, 180*time.Second)
	violations := 0
	matched := 0
	type vio struct {
		f   *found
		r   nativeResult
		rep *harnessReport
	}
	var vios []vio
	knownHit := map[string]bool{}
	for i := range refs {
		if res == nil || i >= len(res) {
			break
		}
		n := res[i]
		rf := refs[i]
		if rf.f != nil {
			if confirmed(rf.f.c, n) {
				vios = append(vios, vio{rf.f, n, rf.rep})
			} else {
				b, _ := json.Marshal(n)
				v, _ := json.Marshal(rf.f.c.Values)
				rf.rep.Unconfirmed = append(rf.rep.Unconfirmed, fmt.Sprintf("%s with %s: native run gave %.600s", rf.f.c.Label, v, b))
			}
			continue
		}
		rf.rep.Replayed++
		ok := n.Panic == "" && n.Crashed == "" && !n.Assumed && len(n.Failed) == 0 && strings.Join(n.Obs, "\n") == strings.Join(rf.s.Obs, "\n")
		if ok {
			rf.rep.Matched++
			matched++
		} else {
			b, _ := json.Marshal(n)
			v, _ := json.Marshal(rf.s.Values)
			rf.rep.Mismatch = append(rf.rep.Mismatch, fmt.Sprintf("input %s: engine observed %v, native %.600s", v, rf.s.Obs, b))
		}
	}
	code := 0
	printed := map[string]bool{}
	for _, v := range vios {
		c := v.f.c
		if c.Known != "" {
			listed := false
			for _, k := range known {
				if k.prop == prop && k.id == c.Known {
					listed = true
					if !knownHit[k.id] {
						knownHit[k.id] = true
						fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", prop, k.id, k.text)
					}
				}
			}
			if listed {
				continue
			}
		}
		violations++
		code = 1
		key := v.f.h.Name + "|" + c.Label
		if printed[key] {
			continue
		}
		printed[key] = true
		rd := filepath.Join(verifDir, "replays")
		os.MkdirAll(rd, 0755)
		rp := filepath.Join(rd, fmt.Sprintf("%s-%d.json", prop, len(printed)))
		writeJSON(rp, replayFile{prop, v.f.h.Name, c.Label, c.Kind, t, c.Values, c.Trace, v.r})
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rp)
		vb, _ := json.Marshal(c.Values)
		fmt.Printf("  %s: %s\n  input: %.3000s\n", v.f.h.Name, c.Label, vb)
	}
	total := SolverStats{}
	proved, trivial := 0, 0
	fset := map[string]bool{}
	exh := true
	for _, r := range reps {
		total.Queries += r.Queries
		total.Sat += r.Sat
		total.Unsat += r.Unsat
		total.Unknown += r.Unknown
		proved += r.Proved
		trivial += r.Trivial
		for _, f := range r.Functions {
			fset[f] = true
		}
		exh = exh && r.Exhausted
		if r.VacuityWarning != "" {
			fmt.Printf("NOTE %s: %s\n", r.Name, r.VacuityWarning)
		}
		for k, n := range r.Outside {
			fmt.Printf("NOTE %s: outside the claim: %s (x%d)\n", r.Name, k, n)
		}
		for _, m := range r.Mismatch {
			fmt.Printf("NOTE %s: native run differs: %.1500s\n", r.Name, m)
		}
		for _, m := range r.Unconfirmed {
			fmt.Printf("NOTE %s: counterexample not reproduced natively (not reported): %.1500s\n", r.Name, m)
		}
		fmt.Printf("%s: %d paths (%d completed), %d queries in %.1fs, %d+%d assertions discharged, complete=%v, %d/%d native replays agree, %.1fs\n", r.Name, r.Paths, r.Completed, r.Queries, r.SolverS, r.Proved, r.Trivial, r.Exhausted, r.Matched, r.Replayed, r.WallS)
	}
	for _, d := range w.dropped {
		fmt.Printf("NOTE harness file dropped, it does not compile against the current tree: %s\n", d)
	}
	if nerr != nil {
		fmt.Printf("NOTE native replay: %v\n", nerr)
	}
	solverS := 0.0
	for _, r := range reps {
		solverS += r.SolverS
	}
	if len(samplesOut) == 0 {
		samplesOut = append(samplesOut, "none")
	}
	assumptions = append(assumptions,
		"package sources are executed from go/ssa built from the current tree; calls outside the encoded packages are replaced by the models described in DESIGN.md, and a path reaching anything else is reported outside the claim",
		"logging has no effect; string formatting is not part of the claim except where observed")
	ev := map[string]interface{}{
		"property": prop, "tier": t, "seed": seed, "level": "model_checking",
		"coverage": map[string]interface{}{
			"states": totalPaths, "transitions": totalInstr, "traces_validated_against_impl": matched, "samples": samplesOut,
			"exhaustive": exh, "queries_discharged": total.Queries, "sat": total.Sat, "unsat": total.Unsat, "unknown": total.Unknown,
			"solver_s": solverS, "assertions_discharged_by_solver": proved, "assertions_discharged_by_simplification": trivial,
			"functions_encoded": len(fset), "harnesses": reps, "load_s": loadS, "native_build_s": nat.wall.Seconds(), "harness_files_dropped": w.dropped,
			"explanation": "states = symbolic paths (each stands for every input satisfying its path condition), transitions = SSA instructions executed symbolically; solvers z3 (new) with cvc5 as fallback",
		},
		"assumptions": assumptions, "wall_s": time.Since(t0).Seconds(), "violations": violations,
	}
	writeJSON(evFile, ev)
	fmt.Printf("property %s %s: %d violation(s), %.1fs\n", prop, t, violations, time.Since(t0).Seconds())
	return code
}

func writeJSON(p string, v interface{}) {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return
	}
	os.WriteFile(p, append(b, '\n'), 0644)
}

// replayMain reruns a recorded counterexample against the real code.
func replayMain(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var r replayFile
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Println(err)
		return 2
	}
	tier = r.Tier
	w, err := LoadWorld(r.Property)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	n := w.StartNative()
	defer n.Close()
	res, err := n.Run([]Job{{r.Harness, r.Values}}, time.Minute)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	x, _ := json.MarshalIndent(res[0], "", " ")
	fmt.Printf("%s\n", x)
	if confirmed(&Cex{Label: r.Label, Kind: r.Kind}, res[0]) {
		fmt.Printf("reproduced: %s\n", r.Label)
		return 1
	}
	fmt.Println("not reproduced")
	return 0
}
