package main

// Symbolic interpreter for go/ssa.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"runtime/debug"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// pathEnd unwinds the interpreter when a path stops.
type pathEnd struct {
	kind   string // "assume", "unsupported", "bound", "internal", "deadlock", "done"
	reason string
}

func unsupported(s string) pathEnd { return pathEnd{"unsupported", s} }

// goPanic is a Go-level panic of the interpreted program.
type goPanic struct {
	v  Iface
	rt string // runtime error text
	tr string
}

type ndVar struct {
	Name string
	Kind string
	T    *Term
	S    *Str
}

type obsRec struct {
	label string
	v     Value
}

type Cex struct {
	Label  string
	Kind   string // assert | panic | deadlock
	Known  string
	Values map[string]string
	Trace  []string
}

// decision: b is 0,1 (chosen) or 2,3 (forced); v is the value tried when the
// decision comes from concretising a wide integer.
type decision struct {
	b byte
	v *big.Int
}

type prefix struct {
	d []decision
	m Model
}

type Interp struct {
	w       *World
	c       *TermCtx
	sol     *Solver
	globals map[*ssa.Global]*Cell
	consts  map[*ssa.Const]Value
	initing bool
	// reflect.DeepEqual tells nil from empty
	strictNil bool
	journal   []func()

	// path state
	pre     []decision
	decs    []decision
	pc      []*Term
	model   Model
	memo    map[*Term]*big.Int
	known   map[*Term]bool
	nInstr  int
	depth   int
	nds     []ndVar
	ndSeen  map[string]int
	obs     []obsRec
	covers  map[string]bool
	knownID []knownCond
	alts    []prefix
	cexs    []*Cex
	side    map[interface{}]interface{}
	stack   []*ssa.Function

	// scheduling
	tasks      []*Task
	cur        *Task
	abort      *pathEnd
	abortP     *goPanic
	sched      bool
	preempt    int
	delays     bool // any deviation from the default order counts as a switch
	swSeen     int
	naps       bool
	clock      *Term
	fixedClock bool

	// statistics
	st         *HarnessStats
	maxInstr   int
	maxDecs    int
	trace      bool
	noPanicCex bool
}

type knownCond struct {
	id string
	t  *Term
}

func NewInterp(w *World) *Interp {
	ip := &Interp{w: w, c: NewTermCtx(), globals: map[*ssa.Global]*Cell{}, consts: map[*ssa.Const]Value{}}
	ip.maxInstr = 3000000
	ip.maxDecs = 4000
	ip.resetPath()
	return ip
}

func (ip *Interp) resetPath() {
	ip.pre, ip.decs, ip.pc, ip.model = nil, nil, nil, nil
	ip.memo = map[*Term]*big.Int{}
	ip.known = map[*Term]bool{}
	ip.nInstr, ip.depth = 0, 0
	ip.nds = nil
	ip.ndSeen = map[string]int{}
	ip.obs = nil
	ip.covers = map[string]bool{}
	ip.knownID = nil
	ip.alts = nil
	ip.cexs = nil
	ip.side = map[interface{}]interface{}{}
	ip.stack = nil
	ip.tasks = nil
	ip.cur = nil
	ip.abort, ip.abortP = nil, nil
	ip.sched, ip.delays, ip.preempt, ip.swSeen, ip.naps = false, false, 0, 0, false
	ip.clock = nil
	ip.fixedClock = false
	ip.noPanicCex = false
}

// ---- path condition

func (ip *Interp) assume(t *Term) {
	if t.isTrue() || ip.known[t] {
		return
	}
	ip.pc = append(ip.pc, t)
	ip.known[t] = true
	if t.op == OpAnd {
		for _, a := range t.args {
			ip.known[a] = true
		}
	}
	ip.sol.Assert(t)
	if ip.model != nil && t.Eval(ip.model, ip.memo).Sign() == 0 {
		ip.model = nil
	}
}

func (ip *Interp) setModel(m Model) {
	ip.model = m
	ip.memo = map[*Term]*big.Int{}
}

// needModel makes sure ip.model satisfies the path condition; false if the
// path condition is unsatisfiable, ok=false if the solver gave up.
func (ip *Interp) needModel() (sat bool, ok bool) {
	if ip.model != nil {
		return true, true
	}
	r, m := ip.sol.Check(nil)
	switch r {
	case Sat:
		ip.setModel(m)
		return true, true
	case Unsat:
		return false, true
	}
	return true, false
}

func (ip *Interp) branch(t *Term) bool {
	if t.isTrue() {
		return true
	}
	if t.isFalse() {
		return false
	}
	if ip.initing {
		panic(unsupported("symbolic branch during init"))
	}
	if ip.known[t] {
		return true
	}
	if ip.known[ip.c.Not(t)] {
		return false
	}
	return ip.branchRec(t, nil)
}

// branchRec always records a decision.
func (ip *Interp) branchRec(t *Term, cv *big.Int) bool {
	nt := ip.c.Not(t)
	pos := len(ip.decs)
	if pos < len(ip.pre) {
		d := ip.pre[pos]
		ip.decs = append(ip.decs, d)
		v := d.b&1 == 1
		if d.b >= 2 {
			if v {
				ip.known[t] = true
			} else {
				ip.known[nt] = true
			}
		} else if v {
			ip.assume(t)
		} else {
			ip.assume(nt)
		}
		return v
	}
	if pos >= ip.maxDecs {
		panic(pathEnd{"bound", "decisions per path"})
	}
	sat, ok := ip.needModel()
	if !sat {
		panic(pathEnd{"assume", "infeasible"})
	}
	var v bool
	if ok {
		v = t.Eval(ip.model, ip.memo).Sign() != 0
	} else {
		// no model: decide each side separately
		r1, m1 := ip.sol.Check(t)
		if r1 == Unsat {
			v = false
		} else {
			v = true
			if r1 == Sat {
				ip.setModel(m1)
			} else {
				ip.st.note("unknown", "feasibility undecided")
			}
		}
		if !v {
			ip.decs = append(ip.decs, decision{2, cv})
			ip.known[nt] = true
			return false
		}
	}
	other := nt
	if !v {
		other = t
	}
	r, m := ip.sol.Check(other)
	bit := func(b bool) byte {
		if b {
			return 1
		}
		return 0
	}
	if r == Unsat {
		ip.decs = append(ip.decs, decision{2 | bit(v), cv})
		if v {
			ip.known[t] = true
		} else {
			ip.known[nt] = true
		}
		return v
	}
	if r == Unknown {
		ip.st.note("unknown", "feasibility undecided (both sides explored)")
	}
	alt := append(append([]decision(nil), ip.decs...), decision{bit(!v), cv})
	ip.alts = append(ip.alts, prefix{alt, m})
	ip.st.forkAt(ip.curFn())
	ip.decs = append(ip.decs, decision{bit(v), cv})
	if v {
		ip.assume(t)
	} else {
		ip.assume(nt)
	}
	return v
}

func (ip *Interp) curFn() string {
	if n := len(ip.stack); n > 0 {
		return ip.stack[n-1].String()
	}
	return "?"
}

func (ip *Interp) concretize(t *Term) *big.Int {
	if t.isConst() {
		return t.c
	}
	if t.lo != nil && t.hi != nil && new(big.Int).Sub(t.hi, t.lo).Cmp(big.NewInt(300)) <= 0 {
		for v := t.lo; v.Cmp(t.hi) < 0; v = new(big.Int).Add(v, one) {
			if ip.branch(ip.c.Eq(t, ip.c.Big(v))) {
				return v
			}
		}
		ip.assume(ip.c.Eq(t, ip.c.Big(t.hi)))
		return t.hi
	}
	for i := 0; i < 24; i++ {
		var v *big.Int
		if pos := len(ip.decs); pos < len(ip.pre) {
			v = ip.pre[pos].v
			if v == nil {
				panic(pathEnd{"internal", "concretisation replay mismatch"})
			}
		} else {
			sat, ok := ip.needModel()
			if !sat {
				panic(pathEnd{"assume", "infeasible"})
			}
			if !ok {
				panic(pathEnd{"bound", "concretisation without a model"})
			}
			v = t.Eval(ip.model, ip.memo)
		}
		if ip.branchRec(ip.c.Eq(t, ip.c.Big(v)), v) {
			return v
		}
	}
	panic(pathEnd{"bound", "more than 24 values of a wide integer in " + ip.curFn()})
}

func (ip *Interp) concInt(t *Term) int {
	v := ip.concretize(t)
	return int(v.Int64())
}

// ---- assertions

func (ip *Interp) assert(t *Term, label string) {
	ip.st.assertSeen(label)
	if t.isTrue() || ip.known[t] {
		ip.st.AssertTrivial++
		return
	}
	nt := ip.c.Not(t)
	if t.op == OpAnd && !(ip.model != nil && nt.Eval(ip.model, ip.memo).Sign() != 0) {
		// one query per conjunct
		for _, a := range t.args {
			if !ip.known[a] {
				ip.assert(a, label)
			}
		}
		ip.known[t] = true
		return
	}
	var m Model
	res := Unknown
	if ip.model != nil && nt.Eval(ip.model, ip.memo).Sign() != 0 {
		res, m = Sat, ip.model
	} else {
		res, m = ip.sol.Check(nt)
	}
	switch res {
	case Unsat:
		ip.st.AssertProved++
		ip.known[t] = true
		return
	case Unknown:
		if os.Getenv("VERIF_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "UNDECIDED", label, t)
		}
		ip.st.note("unknown", "assertion undecided: "+label)
	case Sat:
		ip.addCex(label, "assert", m, nt)
	}
	// continue under the assertion
	if t.isFalse() {
		panic(pathEnd{"done", "assert failed"})
	}
	ip.assume(t)
	if ip.model == nil {
		if r, m := ip.sol.Check(nil); r == Unsat {
			panic(pathEnd{"done", "assert failed"})
		} else if r == Sat {
			ip.setModel(m)
		}
	}
}

// addCex records a counterexample, preferring one outside known findings.
func (ip *Interp) addCex(label, kind string, m Model, extra *Term) {
	id := ""
	if len(ip.knownID) > 0 {
		// is there a violation outside every known finding?
		not := ip.c.True
		for _, k := range ip.knownID {
			not = ip.c.And(not, ip.c.Not(k.t))
		}
		q := not
		if extra != nil {
			q = ip.c.And(extra, not)
		}
		r, m2 := ip.sol.Check(q)
		if r == Sat {
			m = m2
		} else {
			memo := map[*Term]*big.Int{}
			for _, k := range ip.knownID {
				if k.t.Eval(m, memo).Sign() != 0 {
					id = k.id
				}
			}
		}
	}
	cx := &Cex{Label: label, Kind: kind, Known: id, Values: ip.ndValues(m)}
	for i := len(ip.stack) - 1; i >= 0 && len(cx.Trace) < 12; i-- {
		cx.Trace = append(cx.Trace, ip.stack[i].String())
	}
	ip.cexs = append(ip.cexs, cx)
}

func (ip *Interp) ndValues(m Model) map[string]string {
	memo := map[*Term]*big.Int{}
	r := map[string]string{}
	for _, v := range ip.nds {
		if v.S != nil {
			r[v.Name] = ip.strModel(v.S, m, memo)
		} else if v.T != nil {
			r[v.Name] = v.T.Eval(m, memo).String()
		}
	}
	return r
}

// ---- frames

type fnInfo struct {
	slots map[ssa.Value]int
	n     int
}

type frame struct {
	ip        *Interp
	fn        *ssa.Function
	env       []Value
	free      []Value
	slots     map[ssa.Value]int
	block     *ssa.BasicBlock
	prev      *ssa.BasicBlock
	defers    []deferred
	result    Value
	panicking bool
	pan       goPanic
	caller    *frame
	visits    map[*ssa.BasicBlock]int
	tol       bool
}

type deferred struct {
	f    *FuncV
	args []Value
}

func (fr *frame) get(v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return fr.ip.constVal(x)
	case *ssa.Global:
		return fr.ip.global(x)
	case *ssa.Function:
		return &FuncV{fn: x}
	case *ssa.Builtin:
		return &FuncV{bt: x.Name()}
	case *ssa.FreeVar:
		for i, f := range fr.fn.FreeVars {
			if f == x {
				return fr.free[i]
			}
		}
	}
	if i, ok := fr.slots[v]; ok {
		return fr.env[i]
	}
	panic(fmt.Sprintf("no value for %T %v in %s", v, v, fr.fn))
}
func (fr *frame) set(v ssa.Value, x Value) { fr.env[fr.slots[v]] = x }

func (ip *Interp) constVal(x *ssa.Const) Value {
	if v, ok := ip.consts[x]; ok {
		return v
	}
	v := ip.constOf(x.Value, x.Type())
	switch v.(type) {
	case *StructV, *ArrayV:
		return v // fresh every time
	}
	ip.consts[x] = v
	return v
}

func (ip *Interp) constOf(cv constant.Value, t types.Type) Value {
	if cv == nil {
		return ip.zero(t)
	}
	if _, ok := basicInt(t); ok {
		b, ok := new(big.Int).SetString(constant.ToInt(cv).ExactString(), 10)
		if !ok {
			panic("const " + cv.ExactString())
		}
		return ip.c.Big(b)
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return ip.c.Bool(constant.BoolVal(cv))
		case b.Info()&types.IsString != 0:
			if cv.Kind() == constant.String {
				return mkStr(constant.StringVal(cv))
			}
			i, _ := constant.Int64Val(cv)
			return mkStr(string(rune(i)))
		case b.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(cv)
			return f
		}
	}
	panic(unsupported("constant of type " + t.String()))
}

func (ip *Interp) global(g *ssa.Global) *Cell {
	if c, ok := ip.globals[g]; ok {
		return c
	}
	t := g.Type().(*types.Pointer).Elem()
	was := ip.initing
	ip.initing = true
	defer func() { ip.initing = was }()
	var v Value
	pkg := g.Pkg.Pkg.Path()
	if !ip.w.keptPkg[pkg] {
		switch {
		case types.Identical(t, types.Universe.Lookup("error").Type()):
			v = ip.mkError(pkg + "." + g.Name())
		default:
			if gv, ok := ip.w.globalModel(ip, pkg+"."+g.Name(), t); ok {
				v = gv
			} else {
				ip.w.noteStrippedGlobal(pkg + "." + g.Name())
				v = ip.zero(t)
			}
		}
	} else {
		v = ip.zero(t)
	}
	c := &Cell{v: v, init: true}
	ip.globals[g] = c
	return c
}

func (ip *Interp) infoOf(fn *ssa.Function) *fnInfo {
	if i, ok := ip.w.fnInfos.Load(fn); ok {
		return i.(*fnInfo)
	}
	i := &fnInfo{slots: map[ssa.Value]int{}}
	for _, p := range fn.Params {
		i.slots[p] = i.n
		i.n++
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				i.slots[v] = i.n
				i.n++
			}
		}
	}
	ip.w.fnInfos.Store(fn, i)
	return i
}

// call invokes a function value.
func (ip *Interp) call(f *FuncV, args []Value, caller *frame) Value {
	if f == nil {
		ip.rtPanic("invalid memory address or nil pointer dereference")
	}
	if f.nat != nil {
		return f.nat(ip, args)
	}
	if f.bt != "" {
		panic("builtin via call")
	}
	return ip.callFn(f.fn, args, f.env, caller)
}

func (ip *Interp) callFn(fn *ssa.Function, args []Value, env []Value, caller *frame) Value {
	if h := ip.w.handler(fn); h != nil {
		ip.stack = append(ip.stack, fn)
		n := len(ip.stack)
		r := h(ip, fn, args)
		ip.stack = ip.stack[:n-1]
		if _, fall := r.(fallThrough); !fall {
			return r
		}
	}
	if fn.Synthetic != "" && fn.Name() == "init" && fn.Pkg != nil && !ip.w.keptPkg[fn.Pkg.Pkg.Path()] {
		return nil
	}
	if fn.Pkg != nil && fn.Parent() == nil && !ip.w.keptPkg[fn.Pkg.Pkg.Path()] && !ip.w.keptFn(fn) {
		return ip.external(fn, args)
	}
	if len(fn.Blocks) == 0 {
		return ip.external(fn, args)
	}
	ip.depth++
	if ip.depth > 400 {
		panic(pathEnd{"bound", "call depth in " + fn.String()})
	}
	ip.stack = append(ip.stack, fn)
	if ip.st != nil {
		ip.st.fnSeen(fn)
	}
	inf := ip.infoOf(fn)
	fr := &frame{ip: ip, fn: fn, env: make([]Value, inf.n), free: env, slots: inf.slots, block: fn.Blocks[0], caller: caller}
	fr.tol = ip.initing && fn.Parent() == nil && (fn.Synthetic != "" && fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#"))
	for i := range fn.Params {
		if i >= len(args) {
			panic(fmt.Sprintf("args mismatch calling %s", fn))
		}
		fr.env[i] = args[i]
	}
	n := len(ip.stack)
	d := ip.depth
	for fr.block != nil {
		fr.run()
		ip.stack = ip.stack[:n]
		ip.depth = d
	}
	ip.depth--
	ip.stack = ip.stack[:n-1]
	return fr.result
}

func (fr *frame) run() {
	defer func() {
		if fr.block == nil {
			return // normal return
		}
		r := recover()
		switch x := r.(type) {
		case pathEnd:
			panic(x)
		case taskAbort:
			panic(x)
		case goPanic:
			fr.panicking = true
			fr.pan = x
			fr.runDefers()
			fr.block = fr.fn.Recover
			if fr.block == nil {
				fr.result = fr.ip.zeroResults(fr.fn.Signature)
			}
		default:
			if ex, ok := r.(error); ok {
				panic(pathEnd{"internal", fmt.Sprintf("%v in %s\n%s", ex, fr.fn, debug.Stack())})
			}
			panic(pathEnd{"internal", fmt.Sprintf("%v in %s\n%s", r, fr.fn, debug.Stack())})
		}
	}()
	for {
		b := fr.block
		// phis first
		i := 0
		if len(b.Instrs) > 0 {
			if _, ok := b.Instrs[0].(*ssa.Phi); ok {
				var vals []Value
				edge := -1
				for k, p := range b.Preds {
					if p == fr.prev {
						edge = k
						break
					}
				}
				for ; i < len(b.Instrs); i++ {
					ph, ok := b.Instrs[i].(*ssa.Phi)
					if !ok {
						break
					}
					vals = append(vals, fr.get(ph.Edges[edge]))
				}
				for k := 0; k < i; k++ {
					fr.set(b.Instrs[k].(*ssa.Phi), vals[k])
				}
			}
		}
		for ; i < len(b.Instrs); i++ {
			fr.ip.nInstr++
			if fr.ip.nInstr > fr.ip.maxInstr {
				panic(pathEnd{"bound", "instructions per path (in " + fr.fn.String() + ")"})
			}
			var k int
			if fr.tol {
				k = fr.execTol(b.Instrs[i])
			} else {
				k = fr.exec(b.Instrs[i])
			}
			switch k {
			case kNext:
			case kJump:
				goto next
			case kReturn:
				return
			}
		}
	next:
	}
}

// execTol runs an instruction of a package initialiser; what cannot be
// executed leaves a zero value behind.
func (fr *frame) execTol(in ssa.Instruction) (k int) {
	v, isV := in.(ssa.Value)
	switch in.(type) {
	case *ssa.If, *ssa.Jump, *ssa.Return, *ssa.Panic:
		return fr.exec(in)
	}
	n, d := len(fr.ip.stack), fr.ip.depth
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(taskAbort); ok {
				panic(r)
			}
			if os.Getenv("VERIF_DEBUG") != "" {
				fmt.Fprintf(os.Stderr, "init %s: %.300v\n", fr.fn, r)
			}
			fr.ip.stack, fr.ip.depth = fr.ip.stack[:n], d
			if isV {
				fr.set(v, fr.ip.zero(v.Type()))
			}
			k = kNext
		}
	}()
	return fr.exec(in)
}

func (fr *frame) runDefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		fr.runDefer(d)
	}
	if fr.panicking {
		panic(fr.pan)
	}
}

func (fr *frame) runDefer(d deferred) {
	defer func() {
		if r := recover(); r != nil {
			if gp, ok := r.(goPanic); ok {
				fr.panicking = true
				fr.pan = gp
				return
			}
			panic(r)
		}
	}()
	fr.ip.callValue(d.f, d.args, fr)
}

// callValue calls builtins too (deferred builtins).
func (ip *Interp) callValue(f *FuncV, args []Value, fr *frame) Value {
	if f != nil && f.bt != "" {
		return fr.builtin(f.bt, args, nil)
	}
	return ip.call(f, args, fr)
}

func (ip *Interp) zeroResults(sig *types.Signature) Value {
	switch sig.Results().Len() {
	case 0:
		return nil
	case 1:
		return ip.zero(sig.Results().At(0).Type())
	}
	return ip.zero(sig.Results())
}

func (ip *Interp) rtPanic(msg string) {
	panic(goPanic{rt: "runtime error: " + msg, tr: ip.backtrace()})
}

func (ip *Interp) backtrace() string {
	var sb strings.Builder
	for i := len(ip.stack) - 1; i >= 0 && i > len(ip.stack)-8; i-- {
		sb.WriteString(ip.stack[i].String() + " < ")
	}
	return sb.String()
}

const (
	kNext = iota
	kJump
	kReturn
)

func (fr *frame) jump(to *ssa.BasicBlock) int {
	fr.prev, fr.block = fr.block, to
	return kJump
}

func (fr *frame) deref(p Value) *Cell {
	c, _ := p.(*Cell)
	if c == nil {
		if _, ok := p.(*Cell); !ok && p != nil {
			panic(unsupported(fmt.Sprintf("dereference of %T", p)))
		}
		fr.ip.rtPanic("invalid memory address or nil pointer dereference")
	}
	return c
}

func (fr *frame) exec(in ssa.Instruction) int {
	ip := fr.ip
	c := ip.c
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		fr.set(x, ip.newCell(ip.zero(t)))
	case *ssa.BinOp:
		fr.set(x, ip.binop(x.Op, x.X.Type(), fr.get(x.X), fr.get(x.Y), x.Y.Type()))
	case *ssa.UnOp:
		fr.set(x, fr.unop(x))
	case *ssa.Call:
		fr.set(x, fr.callCommon(&x.Call, x.Type()))
	case *ssa.ChangeInterface, *ssa.ChangeType:
		v := in.(ssa.Value)
		ops := in.Operands(nil)
		fr.set(v, fr.get(*ops[0]))
	case *ssa.Convert:
		fr.set(x, ip.convert(fr.get(x.X), x.X.Type(), x.Type()))
	case *ssa.MultiConvert:
		fr.set(x, ip.convert(fr.get(x.X), x.X.Type(), x.Type()))
	case *ssa.Defer:
		f, args := fr.prepareCall(&x.Call)
		fr.defers = append(fr.defers, deferred{f, args})
	case *ssa.Extract:
		fr.set(x, fr.get(x.Tuple).(TupleV)[x.Index])
	case *ssa.Field:
		fr.set(x, ip.copyVal(fr.get(x.X).(*StructV).f[x.Field].v))
	case *ssa.FieldAddr:
		cell := fr.deref(fr.get(x.X))
		s, ok := cell.v.(*StructV)
		if !ok {
			panic(unsupported(fmt.Sprintf("field %d of %T (%s)", x.Field, cell.v, x.X.Type())))
		}
		fr.set(x, s.f[x.Field])
	case *ssa.Go:
		f, args := fr.prepareCall(&x.Call)
		ip.spawn(f, args)
	case *ssa.If:
		cond := fr.get(x.Cond).(*Term)
		if !cond.isTrue() && !cond.isFalse() {
			if k, ok := fr.tryMerge(x, cond); ok {
				return k
			}
		}
		if ip.branch(cond) {
			return fr.jump(fr.block.Succs[0])
		}
		return fr.jump(fr.block.Succs[1])
	case *ssa.Index:
		fr.set(x, fr.index(fr.get(x.X), fr.get(x.Index).(*Term)))
	case *ssa.IndexAddr:
		fr.set(x, fr.indexAddr(fr.get(x.X), fr.get(x.Index).(*Term)))
	case *ssa.Jump:
		return fr.jump(fr.block.Succs[0])
	case *ssa.Lookup:
		switch m := fr.get(x.X).(type) {
		case *Str:
			fr.set(x, fr.index(m, fr.get(x.Index).(*Term)))
		case *MapObj:
			e := ip.mapFind(m, fr.get(x.Index))
			var v Value
			if e != nil {
				v = ip.copyVal(e.v.v)
			} else {
				et := x.X.Type().Underlying().(*types.Map).Elem()
				v = ip.zero(et)
			}
			if x.CommaOk {
				fr.set(x, TupleV{v, c.Bool(e != nil)})
			} else {
				fr.set(x, v)
			}
		default:
			panic(unsupported("lookup"))
		}
	case *ssa.MakeChan:
		n := ip.concInt(fr.get(x.Size).(*Term))
		fr.set(x, &ChanObj{cap: n})
	case *ssa.MakeClosure:
		f := &FuncV{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			f.env = append(f.env, fr.get(b))
		}
		fr.set(x, f)
	case *ssa.MakeInterface:
		fr.set(x, Iface{x.X.Type(), ip.copyVal(fr.get(x.X))})
	case *ssa.MakeMap:
		fr.set(x, &MapObj{init: ip.initing})
	case *ssa.MakeSlice:
		fr.set(x, ip.makeSlice(x.Type(), fr.get(x.Len).(*Term), fr.get(x.Cap).(*Term)))
	case *ssa.MapUpdate:
		m := fr.get(x.Map).(*MapObj)
		if m == nil {
			panic(goPanic{rt: "assignment to entry in nil map", tr: ip.backtrace()})
		}
		ip.mapSet(m, ip.copyVal(fr.get(x.Key)), ip.copyVal(fr.get(x.Value)))
	case *ssa.Next:
		fr.set(x, fr.next(x))
	case *ssa.Panic:
		v := fr.get(x.X).(Iface)
		panic(goPanic{v: v, tr: ip.backtrace()})
	case *ssa.Range:
		switch m := fr.get(x.X).(type) {
		case *MapObj:
			it := &rangeIter{}
			if m != nil {
				it.m = m
				it.ents = append([]*mapEntry(nil), m.ents...)
				if ip.side["maporder"] != nil && len(it.ents) > 1 && len(it.ents) <= 4 && !ip.initing {
					it.ents = ip.permute(it.ents)
				}
				if f, ok := ip.side["mapflip"].(int); ok && len(it.ents) > 1 && !ip.initing {
					if f < 0 {
						f = ip.choice("mapflip", 2)
						ip.side["mapflip"] = f
					}
					if f == 1 {
						for i, j := 0, len(it.ents)-1; i < j; i, j = i+1, j-1 {
							it.ents[i], it.ents[j] = it.ents[j], it.ents[i]
						}
					}
				}
			}
			fr.set(x, it)
		case *Str:
			fr.set(x, &rangeIter{s: ip.concIfNeeded(m), isStr: true})
		default:
			panic(unsupported("range"))
		}
	case *ssa.Return:
		switch len(x.Results) {
		case 0:
		case 1:
			fr.result = ip.copyVal(fr.get(x.Results[0]))
		default:
			t := make(TupleV, len(x.Results))
			for i, r := range x.Results {
				t[i] = ip.copyVal(fr.get(r))
			}
			fr.result = t
		}
		fr.block = nil
		return kReturn
	case *ssa.RunDefers:
		fr.runDefers()
	case *ssa.Select:
		fr.set(x, fr.selectStmt(x))
	case *ssa.Send:
		ip.chanSend(fr.get(x.Chan).(*ChanObj), ip.copyVal(fr.get(x.X)))
	case *ssa.Slice:
		fr.set(x, fr.slice(x))
	case *ssa.SliceToArrayPointer:
		s := ip.norm(fr.get(x.X).(SliceV))
		n := int(x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if s.len < n {
			ip.rtPanic("cannot convert slice to array")
		}
		fr.set(x, &Cell{v: &ArrayV{e: s.arr.e[s.off : s.off+n]}})
	case *ssa.Store:
		ip.store(fr.deref(fr.get(x.Addr)), ip.copyVal(fr.get(x.Val)))
	case *ssa.TypeAssert:
		fr.set(x, fr.typeAssert(x))
	default:
		panic(unsupported(fmt.Sprintf("instruction %T", in)))
	}
	return kNext
}

type rangeIter struct {
	m     *MapObj
	ents  []*mapEntry
	i     int
	s     *Str
	isStr bool
}

func (ip *Interp) permute(es []*mapEntry) []*mapEntry {
	var out []*mapEntry
	rest := append([]*mapEntry(nil), es...)
	for len(rest) > 1 {
		k := ip.choice("maporder", len(rest))
		out = append(out, rest[k])
		rest = append(append([]*mapEntry(nil), rest[:k]...), rest[k+1:]...)
	}
	return append(out, rest...)
}

// choice introduces an internal nondeterministic choice in [0,n).
func (ip *Interp) choice(name string, n int) int {
	if n <= 1 {
		return 0
	}
	t := ip.ndInt(name, "int", zero, big.NewInt(int64(n-1)))
	return ip.concInt(t)
}

func (ip *Interp) concIfNeeded(s *Str) *Str {
	if s.kind == strConc {
		return s
	}
	if s.kind == strBytes {
		return s
	}
	return ip.concStr(s)
}

func (fr *frame) next(x *ssa.Next) Value {
	ip := fr.ip
	it := fr.get(x.Iter).(*rangeIter)
	if it.isStr {
		if it.s.kind == strBytes {
			if it.i >= len(it.s.bytes) {
				return TupleV{ip.c.False, ip.c.Int(0), ip.c.Int(0)}
			}
			b := it.s.bytes[it.i]
			if !ip.branch(ip.c.Lt(b, ip.c.Int(128))) {
				panic(unsupported("range over non-ASCII symbolic string"))
			}
			it.i++
			return TupleV{ip.c.True, ip.c.Int(int64(it.i - 1)), b}
		}
		if it.i >= len(it.s.s) {
			return TupleV{ip.c.False, ip.c.Int(0), ip.c.Int(0)}
		}
		for k, r := range it.s.s[it.i:] {
			_ = k
			at := it.i
			n := len(string(r))
			if r == 0xFFFD {
				n = 1
			}
			it.i += n
			return TupleV{ip.c.True, ip.c.Int(int64(at)), ip.c.Int(int64(r))}
		}
	}
	for it.i < len(it.ents) {
		e := it.ents[it.i]
		it.i++
		live := false
		for _, y := range it.m.ents {
			if y == e {
				live = true
			}
		}
		if live {
			return TupleV{ip.c.True, e.k, ip.copyVal(e.v.v)}
		}
	}
	tt := x.Type().(*types.Tuple)
	z := func(t types.Type) Value {
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
			return nil
		}
		return ip.zero(t)
	}
	return TupleV{ip.c.False, z(tt.At(1).Type()), z(tt.At(2).Type())}
}

func (ip *Interp) makeSlice(t types.Type, l, cp *Term) Value {
	n := ip.concSize(l)
	k := n
	if cp != l {
		k = ip.concSize(cp)
	}
	if k < n {
		ip.rtPanic("makeslice: cap out of range")
	}
	et := t.Underlying().(*types.Slice).Elem()
	a := &ArrayV{e: make([]*Cell, k)}
	for i := range a.e {
		a.e[i] = ip.newCell(ip.zero(et))
	}
	return SliceV{arr: a, len: n, cap: k}
}

func (ip *Interp) concSize(l *Term) int {
	if !l.isConst() {
		if ip.branch(ip.c.Lt(l, ip.c.Int(0))) {
			ip.rtPanic("makeslice: len out of range")
		}
		if ip.branch(ip.c.Gt(l, ip.c.Int(64))) {
			panic(pathEnd{"bound", "symbolic allocation larger than 64"})
		}
		for i := 0; i < 64; i++ {
			if ip.branch(ip.c.Eq(l, ip.c.Int(int64(i)))) {
				return i
			}
		}
		return 64
	}
	if l.c.Sign() < 0 {
		ip.rtPanic("makeslice: len out of range")
	}
	if !l.c.IsInt64() || l.c.Int64() > 1<<22 {
		panic(pathEnd{"bound", "allocation size"})
	}
	return int(l.c.Int64())
}

// inRange checks 0 <= i < n, panicking like Go otherwise, and returns a
// concrete index.
func (fr *frame) idx(i *Term, n int) int {
	ip := fr.ip
	if i.isConst() {
		if i.c.Sign() < 0 || i.c.Cmp(big.NewInt(int64(n))) >= 0 {
			ip.rtPanic(fmt.Sprintf("index out of range [%s] with length %d", i.c, n))
		}
		return int(i.c.Int64())
	}
	ok := ip.c.And(ip.c.Ge(i, ip.c.Int(0)), ip.c.Lt(i, ip.c.Int(int64(n))))
	if !ip.branch(ok) {
		ip.rtPanic(fmt.Sprintf("index out of range [symbolic] with length %d", n))
	}
	for k := 0; k < n-1; k++ {
		if ip.branch(ip.c.Eq(i, ip.c.Int(int64(k)))) {
			return k
		}
	}
	return n - 1
}

func (fr *frame) index(v Value, i *Term) Value {
	ip := fr.ip
	switch s := v.(type) {
	case *Str:
		ts := ip.strTerms(s)
		if i.isConst() {
			return ts[fr.idx(i, len(ts))]
		}
		ok := ip.c.And(ip.c.Ge(i, ip.c.Int(0)), ip.c.Lt(i, ip.c.Int(int64(len(ts)))))
		if !ip.branch(ok) {
			ip.rtPanic("index out of range")
		}
		if len(ts) > 300 {
			panic(unsupported("symbolic index into a long string"))
		}
		r := ts[len(ts)-1]
		for k := len(ts) - 2; k >= 0; k-- {
			r = ip.c.Ite(ip.c.Eq(i, ip.c.Int(int64(k))), ts[k], r)
		}
		return r
	case *ArrayV:
		if i.isConst() {
			return ip.copyVal(s.e[fr.idx(i, len(s.e))].v)
		}
		if r, ok := fr.selectArr(s.e, i); ok {
			return r
		}
		return ip.copyVal(s.e[fr.idx(i, len(s.e))].v)
	}
	panic(unsupported(fmt.Sprintf("index of %T", v)))
}

// selectArr reads a symbolic index of scalar cells as an ite chain.
func (fr *frame) selectArr(e []*Cell, i *Term) (Value, bool) {
	ip := fr.ip
	if len(e) == 0 || len(e) > 300 {
		return nil, false
	}
	for _, c := range e {
		if _, ok := c.v.(*Term); !ok {
			return nil, false
		}
	}
	ok := ip.c.And(ip.c.Ge(i, ip.c.Int(0)), ip.c.Lt(i, ip.c.Int(int64(len(e)))))
	if !ip.branch(ok) {
		ip.rtPanic("index out of range")
	}
	r := e[len(e)-1].v.(*Term)
	for k := len(e) - 2; k >= 0; k-- {
		r = ip.c.Ite(ip.c.Eq(i, ip.c.Int(int64(k))), e[k].v.(*Term), r)
	}
	return r, true
}

func (fr *frame) indexAddr(v Value, i *Term) Value {
	ip := fr.ip
	switch s := v.(type) {
	case SliceV:
		s = ip.norm(s)
		return s.cell(fr.idx(i, s.len))
	case *Cell: // pointer to array
		if s == nil {
			ip.rtPanic("invalid memory address or nil pointer dereference")
		}
		a, ok := s.v.(*ArrayV)
		if !ok {
			panic(unsupported("index of pointer to non-array"))
		}
		return a.e[fr.idx(i, len(a.e))]
	}
	panic(unsupported(fmt.Sprintf("indexaddr of %T", v)))
}

func (fr *frame) slice(x *ssa.Slice) Value {
	ip := fr.ip
	v := fr.get(x.X)
	bound := func(b ssa.Value, def int, max int) int {
		if b == nil {
			return def
		}
		t := fr.get(b).(*Term)
		if !t.isConst() {
			ok := ip.c.And(ip.c.Ge(t, ip.c.Int(0)), ip.c.Le(t, ip.c.Int(int64(max))))
			if !ip.branch(ok) {
				ip.rtPanic("slice bounds out of range")
			}
			for k := 0; k < max; k++ {
				if ip.branch(ip.c.Eq(t, ip.c.Int(int64(k)))) {
					return k
				}
			}
			return max
		}
		if t.c.Sign() < 0 || t.c.Cmp(big.NewInt(int64(max))) > 0 {
			ip.rtPanic("slice bounds out of range")
		}
		return int(t.c.Int64())
	}
	switch s := v.(type) {
	case *Str:
		if x.Low == nil && x.High == nil {
			return s
		}
		if s.kind == strRope && x.Low != nil && x.High == nil && s.parts[0].lit != "" {
			if t := fr.get(x.Low).(*Term); t.isConst() && t.c.Sign() >= 0 && t.c.Cmp(big.NewInt(int64(len(s.parts[0].lit)))) <= 0 {
				ps := append([]strPart(nil), s.parts...)
				ps[0].lit = ps[0].lit[t.c.Int64():]
				return ropeOf(ps)
			}
		}
		ts := ip.strTerms(s)
		hi := bound(x.High, len(ts), len(ts))
		lo := bound(x.Low, 0, hi)
		return mkBytesStr(ts[lo:hi])
	case SliceV:
		if s.blob != nil {
			if x.Low == nil && x.High == nil {
				return s
			}
			s = ip.norm(s)
		}
		mx := bound(x.Max, s.cap, s.cap)
		hi := bound(x.High, s.len, mx)
		lo := bound(x.Low, 0, hi)
		if s.arr == nil {
			return s
		}
		return SliceV{arr: s.arr, off: s.off + lo, len: hi - lo, cap: mx - lo}
	case *Cell:
		if s == nil {
			ip.rtPanic("invalid memory address or nil pointer dereference")
		}
		a := s.v.(*ArrayV)
		mx := bound(x.Max, len(a.e), len(a.e))
		hi := bound(x.High, len(a.e), mx)
		lo := bound(x.Low, 0, hi)
		return SliceV{arr: a, off: lo, len: hi - lo, cap: mx - lo}
	}
	panic(unsupported(fmt.Sprintf("slice of %T", v)))
}

func (fr *frame) typeAssert(x *ssa.TypeAssert) Value {
	ip := fr.ip
	v := fr.get(x.X).(Iface)
	ok := false
	var res Value
	if v.t != nil {
		if it, isI := x.AssertedType.Underlying().(*types.Interface); isI {
			ok = types.Implements(v.t, it)
			if ok {
				res = v
			}
		} else {
			ok = types.Identical(v.t, x.AssertedType)
			if ok {
				res = v.v
			}
		}
	}
	if !ok {
		if !x.CommaOk {
			s := "nil"
			if v.t != nil {
				s = v.t.String()
			}
			panic(goPanic{rt: "interface conversion: interface is " + s + ", not " + x.AssertedType.String(), tr: ip.backtrace()})
		}
		res = ip.zero(x.AssertedType)
	}
	if x.CommaOk {
		return TupleV{res, ip.c.Bool(ok)}
	}
	return res
}

func (fr *frame) unop(x *ssa.UnOp) Value {
	ip := fr.ip
	v := fr.get(x.X)
	switch x.Op {
	case token.MUL:
		return ip.copyVal(fr.deref(v).v)
	case token.NOT:
		return ip.c.Not(v.(*Term))
	case token.SUB:
		switch y := v.(type) {
		case *Term:
			ii, _ := basicInt(x.Type())
			return ip.wrap(ip.c.Neg(y), ii)
		case float64:
			return -y
		case *FRat:
			return &FRat{ip.c.Neg(y.num), y.den}
		}
	case token.XOR:
		ii, _ := basicInt(x.Type())
		t := v.(*Term)
		if ii.signed {
			return ip.c.Sub(ip.c.Int(-1), t)
		}
		_, hi := ii.rng()
		return ip.c.Sub(ip.c.Big(hi), t)
	case token.ARROW:
		ch := v.(*ChanObj)
		val, ok := ip.chanRecv(ch, x.X.Type().Underlying().(*types.Chan).Elem())
		if x.CommaOk {
			return TupleV{val, ip.c.Bool(ok)}
		}
		return val
	}
	panic(unsupported("unop " + x.Op.String()))
}

// wrap brings a mathematical result into the range of its machine type.
func (ip *Interp) wrap(t *Term, ii intInfo) *Term {
	lo, hi := ii.rng()
	if t.lo != nil && t.hi != nil && t.lo.Cmp(lo) >= 0 && t.hi.Cmp(hi) <= 0 {
		return t
	}
	if t.isConst() {
		m := new(big.Int).Mod(new(big.Int).Sub(t.c, lo), pow2tab[ii.bits])
		return ip.c.Big(m.Add(m, lo))
	}
	in := ip.c.And(ip.c.Ge(t, ip.c.Big(lo)), ip.c.Le(t, ip.c.Big(hi)))
	if ip.branch(in) {
		return t
	}
	ip.st.note("info", "wrap-around explored in "+ip.curFn())
	// out of range: subtract the right multiple of 2^bits
	p := ip.c.Big(pow2tab[ii.bits])
	m := ip.c.Mod(ip.c.Sub(t, ip.c.Big(lo)), p)
	return ip.c.Add(m, ip.c.Big(lo))
}

// trunc reduces without forking (narrowing conversions, shifts).
func (ip *Interp) trunc(t *Term, ii intInfo) *Term {
	lo, hi := ii.rng()
	if t.lo != nil && t.hi != nil && t.lo.Cmp(lo) >= 0 && t.hi.Cmp(hi) <= 0 {
		return t
	}
	m := ip.c.Mod(ip.c.Sub(t, ip.c.Big(lo)), ip.c.Big(pow2tab[ii.bits]))
	return ip.c.Add(m, ip.c.Big(lo))
}

func (ip *Interp) binop(op token.Token, t types.Type, a, b Value, bt types.Type) Value {
	c := ip.c
	switch op {
	case token.EQL:
		return ip.eqTyped(t, a, b)
	case token.NEQ:
		return c.Not(ip.eqTyped(t, a, b))
	}
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok {
			break
		}
		if x.sort == SBool {
			switch op {
			case token.AND:
				return c.And(x, y)
			case token.OR:
				return c.Or(x, y)
			}
		}
		ii, _ := basicInt(t)
		switch op {
		case token.ADD:
			return ip.wrap(c.Add(x, y), ii)
		case token.SUB:
			return ip.wrap(c.Sub(x, y), ii)
		case token.MUL:
			return ip.wrap(c.Mul(x, y), ii)
		case token.LSS:
			return c.Lt(x, y)
		case token.LEQ:
			return c.Le(x, y)
		case token.GTR:
			return c.Gt(x, y)
		case token.GEQ:
			return c.Ge(x, y)
		case token.QUO, token.REM:
			if ip.branch(c.Eq(y, c.Int(0))) {
				ip.rtPanic("integer divide by zero")
			}
			q, r := ip.truncDiv(x, y)
			if op == token.QUO {
				return ip.wrap(q, ii)
			}
			return r
		case token.SHL, token.SHR:
			if yi, ok := basicInt(bt); ok && yi.signed {
				if ip.branch(c.Lt(y, c.Int(0))) {
					ip.rtPanic("negative shift amount")
				}
			}
			if !y.isConst() {
				if ip.branch(c.Ge(y, c.Int(int64(ii.bits)))) {
					if op == token.SHL {
						return c.Int(0)
					}
					return c.Div(x, c.Big(pow2tab[ii.bits]))
				}
				k := 0
				for ; k < ii.bits-1; k++ {
					if ip.branch(c.Eq(y, c.Int(int64(k)))) {
						break
					}
				}
				y = c.Int(int64(k))
			}
			k := 128
			if y.c.IsInt64() && y.c.Int64() < 128 {
				k = int(y.c.Int64())
			}
			if op == token.SHL {
				return ip.trunc(c.Scale(x, pow2tab[k]), ii)
			}
			return c.Div(x, c.Big(pow2tab[k]))
		case token.AND, token.OR, token.XOR, token.AND_NOT:
			if op == token.AND_NOT {
				_, hi := intInfo{false, ii.bits}.rng()
				if ii.signed {
					y = c.Sub(c.Int(-1), y)
				} else {
					y = c.Sub(c.Big(hi), y)
				}
				op = token.AND
			}
			bop := map[token.Token]Op{token.AND: OpBvAnd, token.OR: OpBvOr, token.XOR: OpBvXor}[op]
			if ii.signed && !(x.lo != nil && x.lo.Sign() >= 0 && y.lo != nil && y.lo.Sign() >= 0) && !(x.isConst() && y.isConst()) {
				// move to unsigned representation
				u := intInfo{false, ii.bits}
				r := c.BitOp(bop, ip.trunc(x, u), ip.trunc(y, u), ii.bits)
				return ip.trunc(r, ii)
			}
			return c.BitOp(bop, x, y, ii.bits)
		}
	case *Str:
		y := b.(*Str)
		switch op {
		case token.ADD:
			return ip.strCat(x, y)
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			l, e := ip.strLess(x, y), ip.strEq
			switch op {
			case token.LSS:
				return l
			case token.LEQ:
				return c.Or(l, e(x, y))
			case token.GTR:
				return c.Not(c.Or(l, e(x, y)))
			default:
				return c.Not(l)
			}
		}
	case float64, *FRat:
		switch op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return ip.fcmp(op.String(), a, b)
		}
		return ip.farith(op, a, b)
	}
	panic(unsupported(fmt.Sprintf("binop %s on %T", op, a)))
}

func (ip *Interp) strLess(a, b *Str) *Term {
	c := ip.c
	if a.kind == strConc && b.kind == strConc {
		return c.Bool(a.s < b.s)
	}
	x, y := ip.strTerms(a), ip.strTerms(b)
	r := c.Bool(len(x) < len(y))
	n := len(x)
	if len(y) < n {
		n = len(y)
	}
	for i := n - 1; i >= 0; i-- {
		r = c.Or(c.Lt(x[i], y[i]), c.And(c.Eq(x[i], y[i]), r))
	}
	return r
}

func (ip *Interp) eqTyped(t types.Type, a, b Value) *Term {
	// comparing an interface with a concrete value
	ai, aok := a.(Iface)
	bi, bok := b.(Iface)
	if aok != bok {
		if aok {
			if ai.t == nil {
				return ip.c.False
			}
			return ip.eq(ai.v, b)
		}
		if bi.t == nil {
			return ip.c.False
		}
		return ip.eq(a, bi.v)
	}
	return ip.eq(a, b)
}

// truncDiv is Go's division (y != 0 already established).
func (ip *Interp) truncDiv(x, y *Term) (q, r *Term) {
	c := ip.c
	neg := false
	ax, ay := x, y
	nx := false
	if !(x.lo != nil && x.lo.Sign() >= 0) {
		if ip.branch(c.Lt(x, c.Int(0))) {
			ax = c.Neg(x)
			nx = true
			neg = !neg
		}
	}
	if !(y.lo != nil && y.lo.Sign() >= 0) {
		if ip.branch(c.Lt(y, c.Int(0))) {
			ay = c.Neg(y)
			neg = !neg
		}
	}
	q = c.Div(ax, ay)
	r = c.Sub(ax, c.Mul(ay, q))
	if ay.isConst() {
		r = c.Mod(ax, ay)
	}
	if neg {
		q = c.Neg(q)
	}
	if nx {
		r = c.Neg(r)
	}
	return
}

// ---- calls

func (fr *frame) prepareCall(cc *ssa.CallCommon) (*FuncV, []Value) {
	ip := fr.ip
	var f *FuncV
	var args []Value
	if cc.IsInvoke() {
		recv := fr.get(cc.Value)
		iv, ok := recv.(Iface)
		if !ok {
			panic(unsupported(fmt.Sprintf("invoke on %T", recv)))
		}
		if iv.t == nil {
			ip.rtPanic("invalid memory address or nil pointer dereference")
		}
		f = ip.method(iv.t, cc.Method)
		args = append(args, iv.v)
	} else {
		f, _ = fr.get(cc.Value).(*FuncV)
	}
	for _, a := range cc.Args {
		args = append(args, ip.copyVal(fr.get(a)))
	}
	return f, args
}

func (ip *Interp) method(t types.Type, m *types.Func) *FuncV {
	if o, ok := ip.w.opaqueMethod(t, m.Name()); ok {
		return o
	}
	fn := ip.w.lookupMethod(t, m)
	if fn == nil {
		panic(unsupported("method " + m.Name() + " of " + t.String()))
	}
	return &FuncV{fn: fn}
}

func (fr *frame) callCommon(cc *ssa.CallCommon, rt types.Type) Value {
	f, args := fr.prepareCall(cc)
	if f != nil && f.bt != "" {
		return fr.builtin(f.bt, args, cc)
	}
	return fr.ip.call(f, args, fr)
}

func (fr *frame) builtin(name string, args []Value, cc *ssa.CallCommon) Value {
	ip := fr.ip
	c := ip.c
	switch name {
	case "len", "cap":
		switch x := args[0].(type) {
		case *Str:
			return ip.strLen(x)
		case SliceV:
			if x.blob != nil {
				return ip.strLen(x.blob)
			}
			if name == "cap" {
				return c.Int(int64(x.cap))
			}
			return c.Int(int64(x.len))
		case *MapObj:
			if x == nil {
				return c.Int(0)
			}
			return c.Int(int64(len(x.ents)))
		case *ChanObj:
			if x == nil {
				return c.Int(0)
			}
			if name == "cap" {
				return c.Int(int64(x.cap))
			}
			return c.Int(int64(len(x.buf)))
		case *ArrayV:
			return c.Int(int64(len(x.e)))
		case *Cell:
			return c.Int(int64(len(x.v.(*ArrayV).e)))
		}
	case "append":
		s := args[0].(SliceV)
		if len(args) == 1 {
			return s
		}
		var more []Value
		switch y := args[1].(type) {
		case SliceV:
			if s.len == 0 && s.blob == nil && y.blob != nil {
				return y
			}
			if hasBlob(y.blob) || hasBlob(s.blob) {
				return SliceV{blob: ip.strCat(ip.sliceStr(s), ip.sliceStr(y)), len: -1}
			}
			y = ip.norm(y)
			for i := 0; i < y.len; i++ {
				more = append(more, ip.copyVal(y.cell(i).v))
			}
		case *Str:
			for _, t := range ip.strTerms(y) {
				more = append(more, t)
			}
		}
		s = ip.norm(s)
		return ip.appendVals(s, more, cc)
	case "copy":
		d := ip.norm(args[0].(SliceV))
		var src []Value
		switch y := args[1].(type) {
		case SliceV:
			y = ip.norm(y)
			for i := 0; i < y.len; i++ {
				src = append(src, ip.copyVal(y.cell(i).v))
			}
		case *Str:
			for _, t := range ip.strTerms(y) {
				src = append(src, t)
			}
		}
		n := d.len
		if len(src) < n {
			n = len(src)
		}
		for i := 0; i < n; i++ {
			ip.store(d.cell(i), src[i])
		}
		return c.Int(int64(n))
	case "delete":
		ip.mapDelete(args[0].(*MapObj), args[1])
		return nil
	case "clear":
		if m, ok := args[0].(*MapObj); ok && m != nil {
			ip.touchMap(m)
			m.ents = nil
		}
		return nil
	case "panic":
		panic(goPanic{v: args[0].(Iface), tr: ip.backtrace()})
	case "recover":
		// recover is called by a deferred function: the panicking frame is
		// the caller of the frame executing it
		pf := fr.caller
		if pf != nil && pf.panicking {
			pf.panicking = false
			p := pf.pan
			if p.rt != "" {
				return ip.mkErrorIface(p.rt)
			}
			return p.v
		}
		return Iface{}
	case "close":
		ch := args[0].(*ChanObj)
		if ch == nil || ch.closed {
			panic(goPanic{rt: "close of nil or closed channel", tr: ip.backtrace()})
		}
		ch.closed = true
		return nil
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0].(*Term)
		for _, a := range args[1:] {
			y := a.(*Term)
			if name == "min" {
				r = c.Ite(c.Le(r, y), r, y)
			} else {
				r = c.Ite(c.Ge(r, y), r, y)
			}
		}
		return r
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Cell); ok && p == nil {
			ip.rtPanic("invalid memory address or nil pointer dereference")
		}
		return args[0]
	}
	panic(unsupported("builtin " + name))
}

func (ip *Interp) appendVals(s SliceV, more []Value, cc *ssa.CallCommon) SliceV {
	n := s.len + len(more)
	if len(more) == 0 {
		return s
	}
	if n <= s.cap {
		for i, v := range more {
			ip.store(s.arr.e[s.off+s.len+i], v)
		}
		return SliceV{arr: s.arr, off: s.off, len: n, cap: s.cap}
	}
	k := s.cap * 2
	if k < n {
		k = n
	}
	a := &ArrayV{e: make([]*Cell, k)}
	for i := 0; i < s.len; i++ {
		a.e[i] = ip.newCell(ip.copyVal(s.cell(i).v))
	}
	for i, v := range more {
		a.e[s.len+i] = ip.newCell(v)
	}
	for i := n; i < k; i++ {
		var z Value
		if cc != nil {
			z = ip.zero(cc.Args[0].Type().Underlying().(*types.Slice).Elem())
		} else {
			z = ip.c.Int(0)
		}
		a.e[i] = ip.newCell(z)
	}
	return SliceV{arr: a, len: n, cap: k}
}

// ---- conversions

func (ip *Interp) convert(v Value, from, to types.Type) Value {
	c := ip.c
	fu, tu := from.Underlying(), to.Underlying()
	if fi, ok := basicInt(from); ok {
		if ti, ok := basicInt(to); ok {
			t := v.(*Term)
			lo, hi := ti.rng()
			if t.lo != nil && t.hi != nil && t.lo.Cmp(lo) >= 0 && t.hi.Cmp(hi) <= 0 {
				return t
			}
			if ti.bits >= fi.bits {
				return ip.wrap(t, ti)
			}
			return ip.trunc(t, ti)
		}
		if tb, ok := tu.(*types.Basic); ok {
			if tb.Info()&types.IsFloat != 0 {
				return ip.intToFloat(v.(*Term))
			}
			if tb.Info()&types.IsString != 0 {
				t := v.(*Term)
				if !t.isConst() {
					if ip.branch(c.And(c.Ge(t, c.Int(0)), c.Lt(t, c.Int(128)))) {
						return mkBytesStr([]*Term{t})
					}
					panic(unsupported("string(symbolic rune)"))
				}
				return mkStr(string(rune(t.c.Int64())))
			}
			if tb.Kind() == types.UnsafePointer {
				panic(unsupported("unsafe.Pointer"))
			}
		}
	}
	if fb, ok := fu.(*types.Basic); ok {
		if fb.Info()&types.IsFloat != 0 {
			if ti, ok := basicInt(to); ok {
				return ip.floatToInt(v, ti)
			}
			if tb, ok := tu.(*types.Basic); ok && tb.Info()&types.IsFloat != 0 {
				if f, ok := v.(float64); ok && tb.Kind() == types.Float32 {
					return float64(float32(f))
				}
				return v
			}
		}
		if fb.Info()&types.IsString != 0 {
			if ts, ok := tu.(*types.Slice); ok {
				if b, ok := ts.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
					return ip.strBytesSlice(v.(*Str))
				}
				// []rune
				s := ip.concStr(v.(*Str))
				if s.kind != strConc {
					panic(unsupported("[]rune(symbolic)"))
				}
				var vals []Value
				for _, r := range s.s {
					vals = append(vals, c.Int(int64(r)))
				}
				return ip.sliceOf(vals)
			}
			if tb, ok := tu.(*types.Basic); ok && tb.Info()&types.IsString != 0 {
				return v
			}
		}
	}
	if fs, ok := fu.(*types.Slice); ok {
		if tb, ok := tu.(*types.Basic); ok && tb.Info()&types.IsString != 0 {
			if b, ok := fs.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				return ip.sliceStr(v.(SliceV))
			}
			s := v.(SliceV)
			var rs []rune
			for i := 0; i < s.len; i++ {
				t := s.cell(i).v.(*Term)
				if !t.isConst() {
					panic(unsupported("string([]rune symbolic)"))
				}
				rs = append(rs, rune(t.c.Int64()))
			}
			return mkStr(string(rs))
		}
		if ta, ok := tu.(*types.Array); ok {
			s := ip.norm(v.(SliceV))
			n := int(ta.Len())
			if s.len < n {
				ip.rtPanic("cannot convert slice to array")
			}
			a := &ArrayV{}
			for i := 0; i < n; i++ {
				a.e = append(a.e, ip.newCell(ip.copyVal(s.cell(i).v)))
			}
			return a
		}
	}
	if _, ok := fu.(*types.Pointer); ok {
		return v
	}
	if b, ok := tu.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return v
	}
	if b, ok := fu.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return v
	}
	return v
}

// tryMerge turns a side-effect-free diamond or triangle into ite values.
func (fr *frame) tryMerge(x *ssa.If, cond *Term) (int, bool) {
	ip := fr.ip
	if ip.known[cond] || ip.known[ip.c.Not(cond)] || ip.initing {
		return 0, false
	}
	b := fr.block
	t, f := b.Succs[0], b.Succs[1]
	pure := func(k *ssa.BasicBlock) bool {
		if len(k.Preds) != 1 || len(k.Instrs) > 8 || len(k.Succs) != 1 {
			return false
		}
		for i, in := range k.Instrs {
			switch y := in.(type) {
			case *ssa.BinOp:
				switch y.Op {
				case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
					if _, ok := basicInt(y.X.Type()); !ok {
						if bb, ok := y.X.Type().Underlying().(*types.Basic); !ok || bb.Info()&types.IsBoolean == 0 {
							return false
						}
					}
				case token.AND, token.OR:
				default:
					return false
				}
			case *ssa.UnOp:
				if y.Op != token.NOT {
					return false
				}
			case *ssa.Convert:
				fi, ok1 := basicInt(y.X.Type())
				ti, ok2 := basicInt(y.Type())
				if !ok1 || !ok2 || ti.bits < fi.bits || (fi.signed && !ti.signed) || (!fi.signed && ti.signed && fi.bits == ti.bits) {
					return false
				}
			case *ssa.Jump:
				return i == len(k.Instrs)-1
			case *ssa.DebugRef:
			default:
				return false
			}
		}
		return false
	}
	var join *ssa.BasicBlock
	switch {
	case pure(t) && t.Succs[0] == f:
		join = f
	case pure(f) && f.Succs[0] == t:
		join = t
	case pure(t) && pure(f) && t.Succs[0] == f.Succs[0]:
		join = t.Succs[0]
	default:
		return 0, false
	}
	if len(join.Preds) < 2 {
		return 0, false
	}
	// phi types must be scalar
	for _, in := range join.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		bb, ok := ph.Type().Underlying().(*types.Basic)
		if !ok || bb.Info()&(types.IsInteger|types.IsBoolean) == 0 {
			return 0, false
		}
	}
	edgeOf := func(p *ssa.BasicBlock) int {
		for k, q := range join.Preds {
			if q == p {
				return k
			}
		}
		return -1
	}
	tp, fp := t, f
	if t == join {
		tp = b
	} else {
		for _, in := range t.Instrs {
			fr.exec1(in)
		}
	}
	if f == join {
		fp = b
	} else {
		for _, in := range f.Instrs {
			fr.exec1(in)
		}
	}
	te, fe := edgeOf(tp), edgeOf(fp)
	var phis []*ssa.Phi
	var vals []Value
	n := 0
	for _, in := range join.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		n++
		a, ok1 := fr.get(ph.Edges[te]).(*Term)
		c, ok2 := fr.get(ph.Edges[fe]).(*Term)
		if !ok1 || !ok2 {
			return 0, false
		}
		phis = append(phis, ph)
		vals = append(vals, ip.c.Ite(cond, a, c))
	}
	for i, ph := range phis {
		fr.set(ph, vals[i])
	}
	// continue in join after its phis
	fr.prev, fr.block = tp, join
	for i := n; i < len(join.Instrs); i++ {
		ip.nInstr++
		switch k := fr.exec(join.Instrs[i]); k {
		case kNext:
		default:
			return k, true
		}
	}
	return kJump, true
}

func (fr *frame) exec1(in ssa.Instruction) {
	if _, ok := in.(*ssa.Jump); ok {
		return
	}
	fr.exec(in)
}
