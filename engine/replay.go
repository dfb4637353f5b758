package main

// Native replay: the real code, compiled by the ordinary compiler, is run on
// the solver's models.  Clock reads, sleeps, go statements and locks are
// redirected to package verifnd so a model also fixes time and schedule.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

type edit struct {
	from, to int
	text     string
}

// rewriteFile redirects time, goroutines and locks; nil if nothing to do.
func rewriteFile(path string) ([]byte, error) {
	src, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	return rewriteSrc(path, src)
}

func rewriteSrc(path string, src []byte) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	imp := map[string]string{}
	for _, i := range f.Imports {
		p, _ := strconv.Unquote(i.Path.Value)
		n := filepath.Base(p)
		if i.Name != nil {
			n = i.Name.Name
		}
		imp[n] = p
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var es []edit
	used := map[string]bool{}
	k := 0
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.SelectorExpr:
			id, ok := x.X.(*ast.Ident)
			if !ok {
				return true
			}
			p := imp[id.Name]
			hit := false
			switch p {
			case "time":
				hit = x.Sel.Name == "Now" || x.Sel.Name == "Since" || x.Sel.Name == "Sleep"
			case "sync":
				hit = x.Sel.Name == "Mutex" || x.Sel.Name == "RWMutex" || x.Sel.Name == "WaitGroup"
			}
			if hit {
				if _, shadow := imp[id.Name]; shadow {
					es = append(es, edit{off(id.Pos()), off(id.End()), "verifnd"})
					used[id.Name] = true
				}
			}
		case *ast.GoStmt:
			call := x.Call
			if len(call.Args) == 0 {
				if _, lit := call.Fun.(*ast.FuncLit); !lit {
					// go f() -> { g := f; verifnd.Go(func() { g() }) }
					k++
					g := fmt.Sprintf("verifArg%d", k)
					es = append(es, edit{off(x.Go), off(x.Go) + 2, "{ " + g + " :="}, edit{off(call.Lparen), off(call.Rparen) + 1, "; verifnd.Go(func() { " + g + "() }) }"})
					return true
				}
				// go func() {...}() -> verifnd.Go(func() {...})
				es = append(es, edit{off(x.Go), off(x.Go) + 2, "verifnd.Go("}, edit{off(call.Lparen), off(call.Rparen) + 1, ")"})
				return true
			}
			// arguments are evaluated now, the call later
			var names, vals []string
			for _, a := range call.Args {
				if _, lit := a.(*ast.BasicLit); lit {
					continue
				}
				if id, ok := a.(*ast.Ident); ok && (id.Name == "nil" || id.Name == "true" || id.Name == "false") {
					continue
				}
				if _, fl := a.(*ast.FuncLit); fl {
					continue
				}
				k++
				names = append(names, fmt.Sprintf("verifArg%d", k))
				vals = append(vals, string(src[off(a.Pos()):off(a.End())]))
				es = append(es, edit{off(a.Pos()), off(a.End()), names[len(names)-1]})
			}
			pre := "{ "
			if len(names) > 0 {
				pre += strings.Join(names, ", ") + " := " + strings.Join(vals, ", ") + "; "
			}
			es = append(es, edit{off(x.Go), off(x.Go) + 2, pre + "verifnd.Go(func() {"}, edit{off(call.Rparen) + 1, off(call.Rparen) + 1, "}) }"})
		}
		return true
	})
	if len(es) == 0 {
		return nil, nil
	}
	sort.SliceStable(es, func(i, j int) bool { return es[i].from < es[j].from })
	var out []byte
	pos := 0
	for _, e := range es {
		if e.from < pos {
			continue // inside an argument already copied
		}
		out = append(out, src[pos:e.from]...)
		out = append(out, e.text...)
		pos = e.to
	}
	out = append(out, src[pos:]...)
	// import on the package clause line, keep imports used
	pe := off(f.Name.End())
	head := string(out[:pe]) + "; import verifnd \"" + modPath + "/internal/verifnd\""
	tail := ""
	for n := range used {
		switch imp[n] {
		case "time":
			tail += "\nvar _ " + n + ".Duration\n"
		case "sync":
			tail += "\nvar _ " + n + ".Once\n"
		}
	}
	return []byte(head + string(out[pe:]) + tail), nil
}

// Native is a built replay binary.
type Native struct {
	dir  string
	bin  string
	err  error
	done chan struct{}
	wall time.Duration
}

// StartNative builds the replay binary in the background.
func (w *World) StartNative() *Native {
	n := &Native{done: make(chan struct{})}
	go func() {
		defer close(n.done)
		t0 := time.Now()
		n.err = w.buildNative(n)
		n.wall = time.Since(t0)
	}()
	return n
}

func (w *World) buildNative(n *Native) error {
	d, err := os.MkdirTemp("", "verif-replay-")
	if err != nil {
		return err
	}
	n.dir = d
	rep := map[string]string{}
	put := func(target string, b []byte) {
		p := filepath.Join(d, fmt.Sprintf("f%d.go", len(rep)))
		os.WriteFile(p, b, 0644)
		rep[target] = p
	}
	for _, f := range []string{"nd.go", "tasks.go"} {
		rep[filepath.Join(repoDir, "internal/verifnd", f)] = filepath.Join(verifDir, "harness/verifnd", f)
	}
	for _, f := range w.files {
		put(overlayName(f), f.src)
	}
	// entry points
	byPkg := map[string][]*HarnessFn{}
	for _, h := range w.harness {
		byPkg[h.Pkg] = append(byPkg[h.Pkg], h)
	}
	var main strings.Builder
	main.WriteString("package main\n\nimport (\n\tnd \"" + modPath + "/internal/verifnd\"\n")
	var pk []string
	for p := range byPkg {
		pk = append(pk, p)
	}
	sort.Strings(pk)
	for i, p := range pk {
		fmt.Fprintf(&main, "\tp%d %q\n", i, p)
		hs := byPkg[p]
		var e strings.Builder
		name := w.prog.ImportedPackage(p).Pkg.Name()
		fmt.Fprintf(&e, "package %s\n\nfunc VerifHarnesses() map[string]func() {\n\treturn map[string]func(){\n", name)
		for _, h := range hs {
			fmt.Fprintf(&e, "\t\t%q: %s,\n", h.Name, h.Name)
		}
		e.WriteString("\t}\n}\n")
		dir := filepath.Join(repoDir, strings.TrimPrefix(strings.TrimPrefix(p, modPath), "/"))
		put(filepath.Join(dir, "zz_verif_entry.go"), []byte(e.String()))
	}
	main.WriteString(")\n\nfunc main() {\n\tall := map[string]func(){}\n")
	for i := range pk {
		fmt.Fprintf(&main, "\tfor k, f := range p%d.VerifHarnesses() {\n\t\tall[k] = f\n\t}\n", i)
	}
	main.WriteString("\tnd.Main(all)\n}\n")
	put(filepath.Join(repoDir, "internal/verifmain/main.go"), []byte(main.String()))
	// redirected sources
	for _, root := range []string{"internal/core", "internal/infrastructure", "internal/interfaces", "pkg"} {
		err := filepath.Walk(filepath.Join(repoDir, root), func(p string, fi os.FileInfo, err error) error {
			if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") || strings.Contains(p, "/pkg/stats/") {
				return nil
			}
			if _, dup := rep[p]; dup {
				return nil
			}
			b, err := rewriteFile(p)
			if err != nil {
				return err
			}
			if b != nil {
				put(p, b)
			}
			return nil
		})
		if err != nil {
			return err
		}
	}
	j, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	ov := filepath.Join(d, "overlay.json")
	if err := os.WriteFile(ov, j, 0644); err != nil {
		return err
	}
	n.bin = filepath.Join(d, "replay")
	c := exec.Command("go", "build", "-overlay", ov, "-o", n.bin, "./internal/verifmain")
	c.Dir = repoDir
	if b, err := c.CombinedOutput(); err != nil {
		return fmt.Errorf("native build: %v\n%s", err, b)
	}
	return nil
}

// rewritten for the entry of each package above
type nativeResult struct {
	Failed  []string `json:"failed"`
	Panic   string   `json:"panic"`
	Obs     []string `json:"obs"`
	Covers  []string `json:"covers"`
	Assumed bool     `json:"assumed"`
	Missing []string `json:"missing"`
	Crashed string   `json:"crashed"`
}

type Job struct {
	Harness string            `json:"harness"`
	Values  map[string]string `json:"values"`
}

func (n *Native) env(jobs, out string, from int) []string {
	dd := filepath.Join(n.dir, "datadir")
	return append(os.Environ(),
		"VERIF_JOBS="+jobs, "VERIF_OUT="+out, fmt.Sprintf("VERIF_FROM=%d", from), "VERIF_TIER="+tier,
		"TDEX_NETWORK=regtest", "TDEX_EXPLORER_ENDPOINT=http://127.0.0.1:3001",
		"TDEX_BASE_ASSET=5ac9f65c0efcc4775e0baec4ec03abdde22473cd3cf33c0419ca290e0751b225",
		"TDEX_FEE_ACCOUNT_BALANCE_THRESHOLD=1000",
		"TDEX_DATA_DIR_PATH="+dd, "TDEX_OPERATOR_DATADIR="+dd, "TMPDIR="+n.dir)
}

// Run replays jobs; a process that dies is restarted after the job it died in.
func (n *Native) Run(jobs []Job, limit time.Duration) ([]nativeResult, error) {
	<-n.done
	if n.err != nil {
		return nil, n.err
	}
	res := make([]nativeResult, len(jobs))
	jf := filepath.Join(n.dir, "jobs.json")
	of := filepath.Join(n.dir, "out.jsonl")
	b, _ := json.Marshal(jobs)
	if err := os.WriteFile(jf, b, 0644); err != nil {
		return nil, err
	}
	os.Remove(of)
	from := 0
	t0 := time.Now()
	for from < len(jobs) && time.Since(t0) < limit {
		c := exec.Command(n.bin)
		c.Dir = n.dir
		c.Env = n.env(jf, of, from)
		var errb strings.Builder
		c.Stderr = &errb
		if err := c.Start(); err != nil {
			return nil, err
		}
		dead := make(chan error, 1)
		go func() { dead <- c.Wait() }()
		why := ""
		last := -1
		idle := time.Now()
		size := int64(-1)
	wait:
		for {
			select {
			case err := <-dead:
				if err != nil {
					why = err.Error()
					s := errb.String()
					if len(s) > 400 {
						s = s[:400]
					}
					why += ": " + s
				}
				break wait
			case <-time.After(20 * time.Millisecond):
				if fi, err := os.Stat(of); err == nil && fi.Size() != size {
					size = fi.Size()
					idle = time.Now()
				}
				if time.Since(idle) > 20*time.Second {
					c.Process.Kill()
					<-dead
					why = "hang"
					break wait
				}
			}
		}
		// read results
		fh, err := os.Open(of)
		finished := -1
		if err == nil {
			sc := bufio.NewScanner(fh)
			sc.Buffer(make([]byte, 1<<20), 1<<26)
			for sc.Scan() {
				var l struct {
					I int           `json:"i"`
					R *nativeResult `json:"r"`
				}
				if json.Unmarshal(sc.Bytes(), &l) != nil {
					continue
				}
				last = l.I
				if l.R != nil {
					res[l.I] = *l.R
					finished = l.I
				}
			}
			fh.Close()
		}
		if last < 0 {
			return res, fmt.Errorf("replay binary did not start: %s", why)
		}
		if finished < last {
			res[last].Crashed = why
			if res[last].Crashed == "" {
				res[last].Crashed = "died"
			}
		}
		if last < from {
			return res, fmt.Errorf("replay binary made no progress: %s", why)
		}
		from = last + 1
	}
	return res, nil
}

func (n *Native) Close() {
	<-n.done
	if n.dir != "" && strings.Contains(n.dir, "verif-replay-") {
		os.RemoveAll(n.dir)
	}
}
