// Package verifnd is the harness interface of the verification engine.  Under
// the engine every function here is an intrinsic over symbolic values; this
// file is the native implementation, used to replay solver models.
package verifnd

import (
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Result of one replayed model.
type Result struct {
	Failed  []string `json:"failed"`
	Panic   string   `json:"panic"`
	Obs     []string `json:"obs"`
	Covers  []string `json:"covers"`
	Assumed bool     `json:"assumed"` // an assumption did not hold
	Missing []string `json:"missing"`
	Dirty   bool     `json:"-"`
}

var (
	vals    map[string]string
	seen    map[string]int
	res     *Result
	clockOn bool
	clock   int64
	fixed   bool
	tierT   bool
)

type assumeFail struct{}

func name(n string) string {
	k := seen[n]
	seen[n] = k + 1
	if k > 0 {
		return n + "#" + strconv.Itoa(k)
	}
	return n
}

func look(n string) (string, bool) {
	v, ok := vals[name(n)]
	if !ok && res != nil {
		res.Missing = append(res.Missing, n)
	}
	return v, ok
}

// Symbolic reports whether the engine is running.
func Symbolic() bool { return false }

// Thorough reports the tier.
func Thorough() bool { return tierT }

// Bound returns the bound of this tier.
func Bound(name string, quick, thorough int) int {
	if tierT {
		return thorough
	}
	return quick
}

func Int64(n string, lo, hi int64) int64 {
	if s, ok := look(n); ok {
		v, _ := strconv.ParseInt(s, 10, 64)
		return v
	}
	return lo
}
func Int(n string, lo, hi int) int { return int(Int64(n, int64(lo), int64(hi))) }
func Uint64(n string, lo, hi uint64) uint64 {
	if s, ok := look(n); ok {
		v, _ := strconv.ParseUint(s, 10, 64)
		return v
	}
	return lo
}
func Bool(n string) bool {
	s, _ := look(n)
	return s == "1" || s == "true"
}

// Choice is a nondeterministic value in [0,n), explored path by path.
func Choice(n string, k int) int {
	if k <= 1 {
		return 0
	}
	return int(Int64(n, 0, int64(k-1)))
}
func Pick(n string, opts ...string) string {
	if s, ok := look(n); ok {
		return s
	}
	return opts[0]
}
func Bytes(n string, k int) []byte {
	base := name(n)
	r := make([]byte, k)
	for i := range r {
		r[i] = byte(Int64(base+"."+strconv.Itoa(i), 0, 255))
	}
	return r
}
func Assume(b bool) {
	if !b {
		if res != nil {
			res.Assumed = true
		}
		panic(assumeFail{})
	}
}
func Assert(b bool, label string) {
	if !b && res != nil {
		res.Failed = append(res.Failed, label)
	}
}
func Cover(l string) {
	if res != nil {
		res.Covers = append(res.Covers, l)
	}
}
func Known(id string, b bool) {}
func And(b ...bool) bool {
	for _, x := range b {
		if !x {
			return false
		}
	}
	return true
}
func Or(b ...bool) bool {
	for _, x := range b {
		if x {
			return true
		}
	}
	return false
}
func Imp(a, b bool) bool { return !a || b }
func Iff(a, b bool) bool { return a == b }
func Ite64(c bool, a, b int64) int64 {
	if c {
		return a
	}
	return b
}

// MapOrder turns on nondeterministic map iteration order (engine only).
func MapOrder(on bool) {}

// MapFlip makes all maps iterate either in the order of insertion or in the
// opposite one (engine only).
func MapFlip() {}

// The following serve stand-ins and are never called by the real code.

func engineOnly() { panic("engine only") }

// Blob is an opaque encoding of v, equal only for equal tags and values.
func Blob(tag string, v interface{}) string { engineOnly(); return "" }

// Unblob gives back what a Blob was made of.
func Unblob(tag string, s string) (interface{}, bool) { engineOnly(); return nil, false }

// GobCopy clones v the way a gob round trip does.
func GobCopy(v interface{}) interface{} { engineOnly(); return nil }

// GobInto stores src into *dst.
func GobInto(dst, src interface{}) { engineOnly() }

// Assign copies what src points to over what dst points to.
func Assign(dst, src interface{}) { engineOnly() }

// JSONInto decodes a generic value into *dst as encoding/json does, and tells
// whether that is possible.
func JSONInto(dst, v interface{}) bool { engineOnly(); return false }

// Append appends v to the slice dst points to.
func Append(dst, v interface{}) { engineOnly() }

// TypeName names the type of v, of what it points to, or of its elements.
func TypeName(v interface{}) string { engineOnly(); return "" }

// Field is the field of v with the given (dotted) name.
func Field(v interface{}, path string) interface{} { engineOnly(); return nil }

// Less compares two numbers or strings.
func Less(a, b interface{}) bool { engineOnly(); return false }

func DeepEq(a, b interface{}) bool { return reflect.DeepEqual(a, b) }

// Panics runs f and reports whether it panicked.
func Panics(f func()) (p bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(assumeFail); ok {
				panic(r)
			}
			p = true
		}
	}()
	f()
	return false
}

func show(v reflect.Value) string {
	if !v.IsValid() {
		return "nil"
	}
	switch v.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return strconv.FormatInt(v.Int(), 10)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return strconv.FormatUint(v.Uint(), 10)
	case reflect.Bool:
		return strconv.FormatBool(v.Bool())
	case reflect.String:
		return strconv.Quote(v.String())
	case reflect.Float64:
		return strconv.FormatFloat(v.Float(), 'g', -1, 64)
	case reflect.Slice, reflect.Array:
		var s []string
		for i := 0; i < v.Len(); i++ {
			s = append(s, show(v.Index(i)))
		}
		return "[" + strings.Join(s, " ") + "]"
	case reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		return show(v.Elem())
	case reflect.Ptr:
		if v.IsNil() {
			return "nil"
		}
		return "&" + show(v.Elem())
	case reflect.Struct:
		var s []string
		for i := 0; i < v.NumField(); i++ {
			s = append(s, show(v.Field(i)))
		}
		return "{" + strings.Join(s, " ") + "}"
	case reflect.Map:
		var s []string
		for _, k := range v.MapKeys() {
			s = append(s, show(k)+":"+show(v.MapIndex(k)))
		}
		sort.Strings(s)
		return "map[" + strings.Join(s, " ") + "]"
	}
	return fmt.Sprint(v.Interface())
}

// Observe records a value compared between the engine and the real code.
func Observe(l string, v interface{}) {
	if res != nil {
		res.Obs = append(res.Obs, l+"="+show(reflect.ValueOf(v)))
	}
}

// ---- clock

func NowUnix() int64 {
	if vals == nil {
		return time.Now().Unix()
	}
	if fixed {
		return clock
	}
	if !clockOn {
		clockOn = true
		clock = Int64("now", 0, 0)
		return clock
	}
	clock += Int64("tick", 0, 0)
	return clock
}
func Now() time.Time {
	if vals == nil {
		return time.Now()
	}
	return time.Unix(NowUnix(), 0)
}
func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Sleep(d time.Duration) {
	if vals == nil {
		time.Sleep(d)
	} else if free {
		time.Sleep(time.Microsecond)
	} else if naps && d >= time.Minute && cur != nil && cur.id != 0 {
		block(func() bool { return !naps })
	}
}

var naps bool

// Naps makes tasks that sleep a minute or more wait until it is turned off;
// other sleeping takes no time.
func Naps(on bool) { naps = on }

// FixClock stops the clock at t seconds.
func FixClock(t int64) { clock, fixed, clockOn = t, true, true }

// ---- replay driver

type job struct {
	Harness string            `json:"harness"`
	Values  map[string]string `json:"values"`
}

// Main runs the models of VERIF_JOBS and appends results to VERIF_OUT.
func Main(hs map[string]func()) {
	die := func(err error) {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	b, err := os.ReadFile(os.Getenv("VERIF_JOBS"))
	if err != nil {
		die(err)
	}
	tierT = os.Getenv("VERIF_TIER") == "thorough"
	var jobs []job
	if err := json.Unmarshal(b, &jobs); err != nil {
		die(err)
	}
	from, _ := strconv.Atoi(os.Getenv("VERIF_FROM"))
	out, err := os.OpenFile(os.Getenv("VERIF_OUT"), os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0644)
	if err != nil {
		die(err)
	}
	defer out.Close()
	for i := from; i < len(jobs); i++ {
		fmt.Fprintf(out, "{\"i\":%d}\n", i)
		r := RunOne(hs[jobs[i].Harness], jobs[i].Values)
		x, _ := json.Marshal(r)
		fmt.Fprintf(out, "{\"i\":%d,\"r\":%s}\n", i, x)
		if r.Dirty {
			// tasks were left behind: go on in a fresh process
			os.Exit(4)
		}
	}
}

// RunOne replays one model.
func RunOne(f func(), v map[string]string) (r *Result) {
	vals, seen, clockOn, clock, fixed = v, map[string]int{}, false, 0, false
	r = &Result{}
	res = r
	resetTasks()
	defer func() {
		for _, t := range tasks {
			if t.id != 0 && t.start && !t.done {
				r.Dirty = true
			}
		}
		if free && pending > 0 {
			r.Dirty = true
		}
		vals = nil
		res = nil
		if p := recover(); p != nil {
			if _, ok := p.(assumeFail); ok {
				r.Assumed = true
				return
			}
			r.Panic = fmt.Sprint(p)
		}
	}()
	if f == nil {
		panic("unknown harness")
	}
	f()
	return r
}
