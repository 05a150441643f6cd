// Package vsym is the interface between property harnesses and the two ways of
// running them: the symbolic engine (which replaces the functions of this file
// by intrinsics) and a native replay of one concrete assignment (the bodies below).
package vsym

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"strconv"
	"sync"
	"testing/synctest"
	"time"
)

type outEv struct {
	Label string   `json:"label"`
	Vals  []string `json:"vals"`
}

type result struct {
	Kind  string   `json:"kind"`
	Label string   `json:"label"`
	Outs  []outEv  `json:"outs"`
	Reach []string `json:"reach"`
}

type input struct {
	Harness string            `json:"harness"`
	Tier    int               `json:"tier"`
	Inputs  map[string]uint64 `json:"inputs"`
	Delays  map[string]int    `json:"delays"`
}

var (
	mu    sync.Mutex
	in    input
	occ   = map[string]int{}
	yocc  = map[string]int{}
	res   result
	outFn string
	sched bool
)

// Load reads the concrete assignment to replay and returns the harness name.
func Load() string {
	b, err := os.ReadFile(os.Getenv("VSYM_IN"))
	if err != nil {
		fmt.Fprintln(os.Stderr, "vsym:", err)
		os.Exit(97)
	}
	if err := json.Unmarshal(b, &in); err != nil {
		fmt.Fprintln(os.Stderr, "vsym:", err)
		os.Exit(97)
	}
	outFn = os.Getenv("VSYM_OUT")
	return in.Harness
}

// Finish ends the replay.
func Finish(kind, label string) {
	mu.Lock()
	res.Kind, res.Label = kind, label
	b, _ := json.Marshal(res)
	os.WriteFile(outFn, b, 0644)
	os.Exit(0)
}

func name(base string) string {
	mu.Lock()
	defer mu.Unlock()
	n := occ[base]
	occ[base] = n + 1
	return base + "#" + strconv.Itoa(n)
}

func val(base string) uint64 { return in.Inputs[name(base)] }

// Byte and the other input functions return a value the checker ranges over.
func Byte(base string) byte         { return byte(val(base)) }
func U16(base string) uint16        { return uint16(val(base)) }
func U32(base string) uint32        { return uint32(val(base)) }
func U64(base string) uint64        { return val(base) }
func Int(base string) int           { return int(val(base)) }
func Int64(base string) int64       { return int64(val(base)) }
func Bool(base string) bool         { return val(base) != 0 }
func Str(base string, n int) string { return string(Bytes(base, n)) }

// Bytes returns n unconstrained bytes.
func Bytes(base string, n int) []byte {
	nm := name(base)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(in.Inputs[nm+"."+strconv.Itoa(i)])
	}
	return b
}

// Choose returns an unconstrained value of [lo,hi], enumerated by forking.
func Choose(base string, lo, hi int) int {
	nm := name(base)
	v, ok := in.Inputs[nm]
	if !ok {
		return lo
	}
	return int(int64(v))
}

// Assume restricts the inputs considered.
func Assume(ok bool) {
	if !ok {
		Finish("assume", "")
	}
}

// Assert states the property.
func Assert(ok bool, label string) {
	if !ok {
		Finish("assert", label)
	}
}

// Fail is Assert(false, label).
func Fail(label string) { Finish("assert", label) }

// Reach records that the harness got to a point (vacuity check).
func Reach(label string) {
	mu.Lock()
	res.Reach = append(res.Reach, label)
	mu.Unlock()
}

func render(v interface{}) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case string:
		return strconv.Quote(x)
	case []byte:
		if x == nil {
			return "nil"
		}
		return strconv.Quote(string(x))
	case bool:
		return strconv.FormatBool(x)
	case error:
		return "error"
	case int, int8, int16, int32, int64, uint, uint8, uint16, uint32, uint64:
		return fmt.Sprint(x)
	}
	return "?"
}

// Out records an observation; the replay must show the same ones as the symbolic run.
func Out(label string, vals ...interface{}) {
	mu.Lock()
	o := outEv{Label: label}
	for _, v := range vals {
		o.Vals = append(o.Vals, render(v))
	}
	res.Outs = append(res.Outs, o)
	mu.Unlock()
}

// Sched allows up to n delays of goroutines at yield points from now on.
func Sched(n int) {
	mu.Lock()
	sched = n > 0
	mu.Unlock()
}

// Yield is a point (inserted into the code under test) at which the running
// goroutine may be held until every other goroutine is blocked.
func Yield(site string) {
	mu.Lock()
	if !sched {
		mu.Unlock()
		return
	}
	n := yocc[site]
	yocc[site] = n + 1
	d := in.Delays[site+"#"+strconv.Itoa(n)]
	mu.Unlock()
	if d > 0 {
		time.Sleep(time.Duration(d))
	}
}

// Delay is an unknown duration between lo and hi, in nanoseconds.
func Delay(name string, lo, hi time.Duration) time.Duration {
	d := time.Duration(Int64(name))
	Assume(d >= lo && d <= hi)
	return d
}

// Native reports whether this is a native replay.
func Native() bool { return true }

// Tier is 0 for quick and 1 for thorough.
func Tier() int { return in.Tier }

// Quiesce blocks until every other goroutine is blocked.
func Quiesce() { synctest.Wait() }

// Goroutines is the number of goroutines other than the one of the harness
// (in a replay: and those of the test), to be compared with an earlier one.
func Goroutines() int {
	n := runtime.NumGoroutine()
	for i := 0; i < 100; i++ {
		// those that are about to end
		runtime.Gosched()
		if m := runtime.NumGoroutine(); m < n {
			n = m
		}
	}
	return n
}

// Concrete forks over the values of x.
func Concrete(x int) int { return x }
