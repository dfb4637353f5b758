package main

// Loading /repo (with harness overlays), SSA construction, function lookup.

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

const modPath = "github.com/tdex-network/tdex-daemon"

// packages whose bodies are executed from source
var keepStd = map[string]bool{
	"errors": true, "sort": true, "strings": true, "bytes": true, "strconv": true,
	"unicode/utf8": true, "context": true, "encoding/hex": true, "path": true,
	"container/list": true, "math/bits": true, "math": true, "encoding/binary": true,
	"internal/bytealg": true, "internal/stringslite": true, "io": true, "internal/byteorder": true, "slices": true, "cmp": true,
}
var keepExt = map[string]bool{
	"github.com/shopspring/decimal":                               true,
	"github.com/tdex-network/tdex-protobuf/generated/go/swap":     true,
	"github.com/tdex-network/tdex-protobuf/generated/go/types":    true,
	"github.com/tdex-network/tdex-protobuf/generated/go/trade":    true,
	"github.com/tdex-network/tdex-protobuf/generated/go/operator": true,
	"github.com/tdex-network/tdex-protobuf/generated/go/wallet":   true,
	"github.com/vulpemventures/go-elements/network":               true,
	"github.com/vulpemventures/go-elements/elementsutil":          true,
	"github.com/vulpemventures/go-elements/transaction":           true,
	"github.com/vulpemventures/go-elements/pset":                  true,
	"github.com/vulpemventures/go-elements/internal/bufferutil":   true,
	"github.com/btcsuite/btcd/wire":                               true,
	"github.com/btcsuite/btcd/chaincfg/chainhash":                 true,
	"github.com/btcsuite/btcd/txscript":                           true,
	"google.golang.org/grpc/codes":                                true,
	"gopkg.in/macaroon-bakery.v2/bakery":                          true,
	"github.com/lightninglabs/neutrino/headerfs":                  false,
}

// functions never executed from source even in kept packages
func stripFunc(pkg string, fd *ast.FuncDecl) bool {
	if strings.Contains(pkg, "/api-spec/protobuf/gen") || strings.Contains(pkg, "tdex-protobuf/generated") {
		return !(fd.Recv != nil && strings.HasPrefix(fd.Name.Name, "Get")) && !(fd.Recv == nil && strings.HasPrefix(fd.Name.Name, "Register"))
	}
	return false
}

type HarnessFn struct {
	Name    string
	Prop    string
	Pkg     string
	Fn      *ssa.Function
	Time    int
	Replays int // most native replays of passing paths (0: default)
	Tiers   string
	Bounds  []string
	Assume  []string
	Doc     string
	File    string
}

type srcFile struct {
	path  string // in /verif/harness
	pkg   string // repo-relative package dir
	props map[string]bool
	all   bool
	keep  []string
	src   []byte
	name  string
}

type World struct {
	prog    *ssa.Program
	fset    *token.FileSet
	keptPkg map[string]bool
	order   []*ssa.Package
	fnInfos sync.Map
	hcache  sync.Map
	models  map[string]*ssa.Function

	errT, wrapErrT, valueCtxT types.Type

	mu       sync.Mutex
	stripped map[string]int
	harness  []*HarnessFn
	files    []*srcFile
	overlay  map[string][]byte
	dropped  []string
}

var repoDir = func() string {
	if d := os.Getenv("VERIF_REPO"); d != "" { // to try changes elsewhere
		return d
	}
	return "/repo"
}()
var verifDir = "/verif"

// readHarness scans /verif/harness for files serving prop.
func readHarness(prop string) ([]*srcFile, error) {
	var all []*srcFile
	err := filepath.Walk(filepath.Join(verifDir, "harness"), func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		line := string(b)
		if i := strings.IndexByte(line, '\n'); i >= 0 {
			line = line[:i]
		}
		if !strings.HasPrefix(line, "//verif:file ") {
			return nil
		}
		f := &srcFile{path: p, props: map[string]bool{}, src: b, name: filepath.Base(p)}
		for _, kv := range strings.Fields(line)[1:] {
			k, v, _ := strings.Cut(kv, "=")
			switch k {
			case "pkg":
				f.pkg = v
			case "props":
				for _, x := range strings.Split(v, ",") {
					if x == "*" {
						f.all = true
					}
					f.props[x] = true
				}
			case "keep":
				f.keep = strings.Split(v, ",")
			}
		}
		all = append(all, f)
		return nil
	})
	if err != nil {
		return nil, err
	}
	pk := map[string]bool{}
	for _, f := range all {
		if f.props[prop] && !f.all {
			pk[f.pkg] = true
		}
	}
	var out []*srcFile
	for _, f := range all {
		if f.props[prop] || (f.all && pk[f.pkg]) {
			out = append(out, f)
		}
	}
	return out, nil
}

func overlayName(f *srcFile) string {
	return filepath.Join(repoDir, f.pkg, "zz_verif_"+f.name)
}

// LoadWorld loads the tree with the harnesses of prop; a harness file that
// does not compile against the tree is dropped.
func LoadWorld(prop string) (*World, error) {
	files, err := readHarness(prop)
	if err != nil {
		return nil, err
	}
	var dropped []string
	for {
		w, bad, err := loadWorld(prop, files)
		if err == nil {
			w.dropped = dropped
			return w, nil
		}
		if len(bad) == 0 {
			if len(dropped) > 0 {
				err = fmt.Errorf("%w (dropped: %s)", err, strings.Join(dropped, "; "))
			}
			return nil, err
		}
		var rest []*srcFile
		for _, f := range files {
			if bad[overlayName(f)] {
				dropped = append(dropped, f.name+": "+err.Error())
			} else {
				rest = append(rest, f)
			}
		}
		if len(rest) == len(files) {
			return nil, err
		}
		files = rest
	}
}

func loadWorld(prop string, files []*srcFile) (*World, map[string]bool, error) {
	if len(files) == 0 {
		return nil, nil, fmt.Errorf("no harness for %s", prop)
	}
	w := &World{keptPkg: map[string]bool{}, models: map[string]*ssa.Function{}, stripped: map[string]int{}, files: files, overlay: map[string][]byte{}}
	ndsrc, err := os.ReadFile(filepath.Join(verifDir, "harness/verifnd/nd.go"))
	if err != nil {
		return nil, nil, err
	}
	w.overlay[filepath.Join(repoDir, "internal/verifnd/nd.go")] = ndsrc
	tsrc, err := os.ReadFile(filepath.Join(verifDir, "harness/verifnd/tasks.go"))
	if err != nil {
		return nil, nil, err
	}
	w.overlay[filepath.Join(repoDir, "internal/verifnd/tasks.go")] = tsrc
	pats := map[string]bool{}
	extra := map[string]bool{}
	for _, f := range files {
		w.overlay[overlayName(f)] = f.src
		pats["./"+f.pkg] = true
		for _, k := range f.keep {
			extra[k] = true
		}
	}
	var patl []string
	for p := range pats {
		if r, ok := nestedPattern(p); ok {
			p = r
		}
		patl = append(patl, p)
	}
	sort.Strings(patl)
	kept := func(pkg string) bool {
		if strings.HasPrefix(pkg, modPath) {
			if strings.HasSuffix(pkg, "/config") && !extra[pkg] {
				return false
			}
			return true
		}
		return keepStd[pkg] || keepExt[pkg] || extra[pkg]
	}
	goroot := goEnv("GOROOT")
	modcache := goEnv("GOMODCACHE")
	pkgOfFile := func(fn string) string {
		d := filepath.Dir(fn)
		if strings.HasPrefix(d, repoDir+"/") || d == repoDir {
			return modPath + strings.TrimPrefix(d, repoDir)
		}
		if strings.HasPrefix(d, goroot+"/src/") {
			return strings.TrimPrefix(d, goroot+"/src/")
		}
		if strings.HasPrefix(d, modcache+"/") {
			r := strings.TrimPrefix(d, modcache+"/")
			// strip @version
			parts := strings.Split(r, "/")
			for i, p := range parts {
				if k := strings.IndexByte(p, '@'); k >= 0 {
					parts[i] = p[:k]
				}
			}
			return unescapeMod(strings.Join(parts, "/"))
		}
		return d
	}
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax,
		Dir:     repoDir,
		Overlay: w.overlay,
		ParseFile: func(fset *token.FileSet, filename string, src []byte) (*ast.File, error) {
			f, err := parser.ParseFile(fset, filename, src, parser.SkipObjectResolution|parser.ParseComments)
			if f == nil {
				return f, err
			}
			pkg := pkgOfFile(filename)
			k := kept(pkg)
			gen := strings.Contains(pkg, "protobuf/gen") || strings.Contains(pkg, "tdex-protobuf/generated")
			if !k || gen {
				var ds []ast.Decl
				for _, d := range f.Decls {
					if fd, ok := d.(*ast.FuncDecl); ok {
						if !k || stripFunc(pkg, fd) {
							if fd.Recv == nil && fd.Name.Name == "init" {
								continue
							}
							fd.Body = nil
						}
					}
					ds = append(ds, d)
				}
				f.Decls = ds
			}
			return f, err
		},
	}
	pkgs, err := packages.Load(cfg, patl...)
	if err != nil {
		return nil, nil, err
	}
	var errs []string
	bad := map[string]bool{}
	w.fset = pkgs[0].Fset
	w.prog = ssa.NewProgram(w.fset, ssa.InstantiateGenerics)
	var order []*packages.Package
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if strings.Contains(e.Msg, "imported and not used") || strings.Contains(e.Msg, "missing function body") || strings.Contains(e.Msg, "declared and not used") {
				continue
			}
			if kept(p.PkgPath) {
				errs = append(errs, e.Error())
				fn := e.Pos
				if k := strings.IndexByte(fn, ':'); k >= 0 {
					fn = fn[:k]
				}
				if strings.Contains(fn, "/zz_verif_") {
					bad[fn] = true
				}
			}
		}
		order = append(order, p)
	})
	if len(errs) > 0 {
		if len(errs) > 10 {
			errs = errs[:10]
		}
		return nil, bad, fmt.Errorf("load errors:\n%s", strings.Join(errs, "\n"))
	}
	var build []*ssa.Package
	for _, p := range order {
		if p.Types == nil {
			continue
		}
		sp := w.prog.CreatePackage(p.Types, p.Syntax, p.TypesInfo, true)
		if kept(p.PkgPath) && p.Types.Path() != "unsafe" {
			w.keptPkg[p.PkgPath] = true
			build = append(build, sp)
			w.order = append(w.order, sp)
		}
	}
	var wg sync.WaitGroup
	for _, sp := range build {
		wg.Add(1)
		go func(sp *ssa.Package) { defer wg.Done(); sp.Build() }(sp)
	}
	wg.Wait()
	if ep := w.prog.ImportedPackage("errors"); ep != nil {
		w.errT = types.NewPointer(ep.Type("errorString").Type())
	}
	if fp := w.prog.ImportedPackage("fmt"); fp != nil {
		if t := fp.Type("wrapError"); t != nil {
			w.wrapErrT = types.NewPointer(t.Type())
		}
	}
	if cp := w.prog.ImportedPackage("context"); cp != nil {
		w.valueCtxT = types.NewPointer(cp.Type("valueCtx").Type())
	}
	// harness functions and models
	for _, p := range order {
		sp := w.prog.Package(p.Types)
		if sp == nil {
			continue
		}
		for _, f := range p.Syntax {
			fn := w.fset.Position(f.Pos()).Filename
			if !strings.HasPrefix(filepath.Base(fn), "zz_verif_") {
				continue
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Doc == nil {
					continue
				}
				var h *HarnessFn
				doc := ""
				for _, c := range fd.Doc.List {
					t := strings.TrimSpace(c.Text)
					switch {
					case strings.HasPrefix(t, "//verif:model "):
						w.models[strings.TrimSpace(strings.TrimPrefix(t, "//verif:model "))] = sp.Func(fd.Name.Name)
					case strings.HasPrefix(t, "//verif:harness "):
						h = &HarnessFn{Name: fd.Name.Name, Pkg: p.PkgPath, Fn: sp.Func(fd.Name.Name), Time: 60, File: filepath.Base(fn)}
						for _, kv := range strings.Fields(t)[1:] {
							k, v, _ := strings.Cut(kv, "=")
							switch k {
							case "prop":
								h.Prop = v
							case "time":
								fmt.Sscan(v, &h.Time)
							case "replays":
								fmt.Sscan(v, &h.Replays)
							case "tier":
								h.Tiers = v
							}
						}
					case strings.HasPrefix(t, "//verif:bound "):
						if h != nil {
							h.Bounds = append(h.Bounds, strings.TrimPrefix(t, "//verif:bound "))
						}
					case strings.HasPrefix(t, "//verif:assume "):
						if h != nil {
							h.Assume = append(h.Assume, strings.TrimPrefix(t, "//verif:assume "))
						}
					case strings.HasPrefix(t, "// "):
						doc += strings.TrimPrefix(t, "// ") + " "
					}
				}
				if h != nil {
					h.Doc = doc
				}
				if h != nil && h.Prop == prop {
					w.harness = append(w.harness, h)
				}
			}
		}
	}
	return w, nil, nil
}

// nestedPattern maps ./pkg/explorer/... to import paths (nested modules).
func nestedPattern(p string) (string, bool) {
	d := strings.TrimPrefix(p, "./")
	for _, m := range []string{"pkg/explorer", "pkg/securestore", "pkg/macaroons"} {
		if d == m || strings.HasPrefix(d, m+"/") {
			return modPath + "/" + d, true
		}
	}
	return p, false
}

func unescapeMod(s string) string {
	var sb strings.Builder
	up := false
	for _, r := range s {
		if r == '!' {
			up = true
			continue
		}
		if up {
			sb.WriteString(strings.ToUpper(string(r)))
			up = false
		} else {
			sb.WriteRune(r)
		}
	}
	return sb.String()
}

func (w *World) noteStrippedGlobal(n string) {
	w.mu.Lock()
	w.stripped[n]++
	w.mu.Unlock()
}

// keptFn reports single functions of stripped packages executed from source.
func (w *World) keptFn(fn *ssa.Function) bool { return false }

func (w *World) globalModel(ip *Interp, name string, t types.Type) (Value, bool) {
	switch name {
	case "encoding/base64.StdEncoding", "encoding/base64.URLEncoding":
		return &Cell{v: Opaque{"base64", name}, init: true}, true
	}
	return nil, false
}

func (w *World) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	return w.prog.LookupMethod(t, m.Pkg(), m.Name())
}

func (w *World) methodByName(t types.Type, name string) *ssa.Function {
	ms := w.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if s := ms.At(i); s.Obj().Name() == name {
			return w.prog.MethodValue(s)
		}
	}
	return nil
}

func (w *World) opaqueMethod(t types.Type, name string) (*FuncV, bool) { return nil, false }

// handler finds the model of a function, if it has one.
func (w *World) handler(fn *ssa.Function) handler {
	if h, ok := w.hcache.Load(fn); ok {
		return h.(handler)
	}
	h := w.findHandler(fn)
	w.hcache.Store(fn, h)
	return h
}

func (w *World) findHandler(fn *ssa.Function) handler {
	o := fn
	if fn.Origin() != nil {
		o = fn.Origin()
	}
	name := o.String()
	if m, ok := w.models[name]; ok && m != fn {
		return func(ip *Interp, fn *ssa.Function, args []Value) Value {
			return ip.callFn(m, args, nil, nil)
		}
	}
	if h, ok := intrinsics[name]; ok {
		return h
	}
	if n, ok := natives[name]; ok {
		return func(ip *Interp, fn *ssa.Function, args []Value) Value {
			if r, ok := ip.callNative(n, args); ok {
				return r
			}
			if r, ok := ip.ropeCall(name, args); ok {
				return r
			}
			if r, ok := ip.hexCall(name, args); ok {
				return r
			}
			cs := ip.concStrArgs(args)
			if r, ok := ip.callNative(n, cs); ok {
				return r
			}
			return fallThrough{}
		}
	}
	pkg := ""
	if o.Pkg != nil {
		pkg = o.Pkg.Pkg.Path()
	} else if o.Object() != nil && o.Object().Pkg() != nil {
		pkg = o.Object().Pkg().Path()
	}
	switch {
	case pkg == "github.com/sirupsen/logrus":
		if strings.HasPrefix(o.Name(), "With") {
			return func(ip *Interp, fn *ssa.Function, args []Value) Value {
				rt := fn.Signature.Results().At(0).Type()
				if p, ok := rt.Underlying().(*types.Pointer); ok {
					return ip.newCell(ip.zero(p.Elem()))
				}
				return ip.zeroResults(fn.Signature)
			}
		}
		return func(ip *Interp, fn *ssa.Function, args []Value) Value { return ip.zeroResults(fn.Signature) }
	case pkg == ndPkg:
		return nil // native helper bodies written in Go
	}
	return nil
}

// RunInits executes the package initialisers of kept packages.
func (ip *Interp) RunInits() {
	ip.initing = true
	ip.st = NewStats()
	for _, p := range ip.w.order {
		f := p.Func("init")
		if f == nil || len(f.Blocks) == 0 {
			continue
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if os.Getenv("VERIF_DEBUG") != "" {
						fmt.Fprintf(os.Stderr, "init %s: %v\n", p.Pkg.Path(), r)
					}
				}
			}()
			ip.nInstr = 0
			ip.callFn(f, nil, nil, nil)
		}()
	}
	ip.initing = false
	ip.resetPath()
}
