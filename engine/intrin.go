package main

import (
	"crypto/md5"
	"fmt"
	"go/types"
	"math"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const modPath = "github.com/NodeBoy2/rtspclient"
const vsymPath = modPath + "/zzv/vsym"

// digitsOf identifies the decimal digits of a number.
type digitsOf struct {
	x *Term
	n int
}

const vmodelPath = modPath + "/zzv/vmodel"

var intrinsics map[string]intrinsic

func done(v Value) (Value, ictl) { return v, iDone }

func nop(w *Worker, g *Goroutine, fr *Frame, a []Value) (Value, ictl) { return nil, iDone }

func (w *Worker) cstr(v Value) string {
	s, ok := w.strConc(v.(*Str))
	if !ok {
		w.unsupported("symbolic string where a constant is required")
	}
	return s
}

func (w *Worker) cint(v Value) int {
	t := v.(*Term)
	if !t.isConst() {
		return int(sext64(w.concretize(t), t.w))
	}
	return int(sext64(t.k, t.w))
}

// fieldOf returns the cell of a (possibly nested) field of the struct at p.
func (w *Worker) fieldOf(p Value, t types.Type, names ...string) *Value {
	cp := p.(*Value)
	for _, n := range names {
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			panic(engineErr{"fieldOf: " + t.String()})
		}
		found := false
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == n {
				cp = &(*cp).(*StructV).f[i]
				t = st.Field(i).Type()
				found = true
				break
			}
		}
		if !found {
			panic(engineErr{"no field " + n + " in " + t.String()})
		}
	}
	return cp
}

func recvElem(fn *ssa.Function) types.Type {
	return fn.Signature.Recv().Type().Underlying().(*types.Pointer).Elem()
}

func (w *Worker) errVal(msg string) Value {
	return Iface{t: w.E.runtimeErrType, v: concStr(msg)}
}

// loadScalar / storeScalar access a scalar through any pointer kind.
func (w *Worker) loadP(p Value) Value {
	switch x := p.(type) {
	case *Value:
		if x == nil {
			panic(endPath{"unsupported", "", "atomic on nil"})
		}
		return *x
	case TPtr:
		return x.a.get(x.i)
	}
	panic(engineErr{fmt.Sprintf("loadP %T", p)})
}

func (w *Worker) storeP(p Value, v Value) {
	if w.spec > 0 {
		panic(specAbort{"atomic store"})
	}
	switch x := p.(type) {
	case *Value:
		w.storeCell(x, v)
	case TPtr:
		w.tset(x.a, x.i, v.(*Term))
	}
}

// patternIntrinsic handles families of functions.
func patternIntrinsic(name string, fn *ssa.Function) intrinsic {
	short := name
	if i := strings.LastIndex(name, "."); i >= 0 {
		short = name[i+1:]
	}
	var pkg string
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg.Path()
	} else if o := fn.Object(); o != nil && o.Pkg() != nil {
		pkg = o.Pkg().Path()
	}
	if (pkg == "sync/atomic" || pkg == "internal/runtime/atomic") && fn.Signature.Recv() == nil {
		switch {
		case strings.HasPrefix(short, "Load"):
			return func(w *Worker, g *Goroutine, fr *Frame, a []Value) (Value, ictl) {
				return w.loadP(a[0]), iDone
			}
		case strings.HasPrefix(short, "Store"):
			return func(w *Worker, g *Goroutine, fr *Frame, a []Value) (Value, ictl) {
				w.storeP(a[0], a[1])
				return nil, iDone
			}
		case strings.HasPrefix(short, "Add"), strings.HasPrefix(short, "Xadd"):
			return func(w *Worker, g *Goroutine, fr *Frame, a []Value) (Value, ictl) {
				v := w.c.Bin(OAdd, w.loadP(a[0]).(*Term), a[1].(*Term))
				w.storeP(a[0], v)
				return v, iDone
			}
		case strings.HasPrefix(short, "And"), strings.HasPrefix(short, "Or"):
			op := OBand
			if strings.HasPrefix(short, "Or") {
				op = OBor
			}
			return func(w *Worker, g *Goroutine, fr *Frame, a []Value) (Value, ictl) {
				old := w.loadP(a[0]).(*Term)
				w.storeP(a[0], w.c.Bin(op, old, a[1].(*Term)))
				return old, iDone
			}
		case strings.HasPrefix(short, "Swap"), strings.HasPrefix(short, "Xchg"):
			return func(w *Worker, g *Goroutine, fr *Frame, a []Value) (Value, ictl) {
				v := w.loadP(a[0])
				w.storeP(a[0], a[1])
				return v, iDone
			}
		case strings.HasPrefix(short, "CompareAndSwap"), strings.HasPrefix(short, "Cas"):
			return func(w *Worker, g *Goroutine, fr *Frame, a []Value) (Value, ictl) {
				eq := w.eqVal(w.loadP(a[0]), a[1])
				if w.branchT(eq) {
					w.storeP(a[0], a[2])
					return w.c.True, iDone
				}
				return w.c.False, iDone
			}
		}
	}
	if pkg == "log" {
		switch short {
		case "Fatal", "Fatalf", "Fatalln":
			return func(w *Worker, g *Goroutine, fr *Frame, a []Value) (Value, ictl) {
				if w.spec > 0 {
					panic(specAbort{"exit"})
				}
				w.end("exit", "exit", "log."+short+" terminates the process at "+w.where())
				return nil, iDone
			}
		case "Print", "Printf", "Println", "Output", "SetFlags", "SetPrefix", "SetOutput":
			return nop
		case "Panic", "Panicf", "Panicln":
			return func(w *Worker, g *Goroutine, fr *Frame, a []Value) (Value, ictl) {
				w.goPanic(g, &panicVal{v: w.errVal("log.Panic"), msg: "panic: log.Panic"})
				return nil, iDone
			}
		}
	}
	return nil
}

func (w *Worker) md5(b []*Term) *TermArr {
	out := newTermArr(w.c, 16, 8)
	conc := make([]byte, len(b))
	all := true
	for i, t := range b {
		if !t.isConst() {
			all = false
			break
		}
		conc[i] = byte(t.k)
	}
	if all {
		s := md5.Sum(conc)
		for i := range s {
			out.page(0)[i] = w.c.Const(8, uint64(s[i]))
		}
		return out
	}
	for i := 0; i < 16; i++ {
		out.page(0)[i] = w.c.UF(fmt.Sprintf("md5_%d_%d", len(b), i), 8, b)
	}
	return out
}

// matchAt is the condition that pat occurs in s at i.
func (w *Worker) matchAt(s, pat []*Term, i int) *Term {
	r := w.c.True
	for j := range pat {
		e := w.c.Eq(s[i+j], pat[j])
		if e.isFalse() {
			return e
		}
		r = w.c.And(r, e)
	}
	return r
}

func (w *Worker) indexOf(s, pat []*Term) *Term {
	for i := 0; i+len(pat) <= len(s); i++ {
		if w.branchT(w.matchAt(s, pat, i)) {
			return w.c.Int(i)
		}
	}
	return w.c.Int(-1)
}

func (w *Worker) lastIndexOf(s, pat []*Term) *Term {
	for i := len(s) - len(pat); i >= 0; i-- {
		if w.branchT(w.matchAt(s, pat, i)) {
			return w.c.Int(i)
		}
	}
	return w.c.Int(-1)
}

func (w *Worker) countOf(s, pat []*Term) *Term {
	n := 0
	for i := 0; i+len(pat) <= len(s); {
		if w.branchT(w.matchAt(s, pat, i)) {
			n++
			i += len(pat)
		} else {
			i++
		}
	}
	return w.c.Int(n)
}

func (w *Worker) allASCII(ts []*Term) *Term {
	r := w.c.True
	for _, t := range ts {
		r = w.c.And(r, w.c.Ult(t, w.c.Const(8, 0x80)))
	}
	return r
}

func (w *Worker) caseMap(ts []*Term, lo, hi byte, d uint64) []*Term {
	out := make([]*Term, len(ts))
	for i, t := range ts {
		in := w.c.And(w.c.Ule(w.c.Const(8, uint64(lo)), t), w.c.Ule(t, w.c.Const(8, uint64(hi))))
		out[i] = w.c.Ite(in, w.c.Bin(OAdd, t, w.c.Const(8, d)), t)
	}
	return out
}

func (w *Worker) bytesEq(a, b []*Term) *Term {
	if len(a) != len(b) {
		return w.c.False
	}
	r := w.c.True
	for i := range a {
		e := w.c.Eq(a[i], b[i])
		if e.isFalse() {
			return e
		}
		r = w.c.And(r, e)
	}
	return r
}

func (w *Worker) bytesCmp(a, b []*Term) *Term {
	k := len(a)
	if len(b) < k {
		k = len(b)
	}
	d := 0
	if len(a) < len(b) {
		d = -1
	} else if len(a) > len(b) {
		d = 1
	}
	r := w.c.Int(d)
	for i := k - 1; i >= 0; i-- {
		r = w.c.Ite(w.c.Eq(a[i], b[i]), r, w.c.Ite(w.c.Ult(a[i], b[i]), w.c.Int(-1), w.c.Int(1)))
	}
	return r
}

func intr2(f func(w *Worker, a, b []*Term) *Term) intrinsic {
	return func(w *Worker, g *Goroutine, fr *Frame, a []Value) (Value, ictl) {
		return f(w, w.bytesOf(a[0]), w.bytesOf(a[1])), iDone
	}
}

// timeVal builds a time.Time for ns nanoseconds after 2000-01-01T00:00:00Z,
// with a reading of the monotonic clock. The wall clock reading of an unknown
// instant is not modelled: it stands still; code that subtracts, adds to and
// compares times uses the monotonic one.
func (w *Worker) timeVal(ns *Term) Value {
	t := w.E.pkgs["time"].Type("Time").Type()
	v := w.zero(t).(*StructV)
	st := t.Underlying().(*types.Struct)
	const wall = 1<<63 | (63082281600-59453308800)<<30 // seconds from 1885 to 2000-01-01
	k := uint64(0)
	if ns.isConst() {
		k = ns.k
	}
	for i := 0; i < st.NumFields(); i++ {
		switch st.Field(i).Name() {
		case "wall":
			v.f[i] = w.c.Const(64, wall+k/1e9<<30+k%1e9)
		case "ext":
			v.f[i] = w.c.Bin(OAdd, ns, w.c.Const(64, 1))
		}
	}
	return v
}

// timeZero is the zero time.Time.
func (w *Worker) timeZero() Value { return w.zero(w.E.pkgs["time"].Type("Time").Type()) }

func (w *Worker) fireInto(ch *ChanObj) func() {
	return func() {
		if r := w.popWaiter(&ch.recvq); r != nil {
			r.deliver(w.timeVal(w.now), true)
			w.wake(r.g)
			return
		}
		if len(ch.buf) < ch.cap {
			ch.buf = append(ch.buf, w.timeVal(w.now))
		}
	}
}

func (w *Worker) newChan(c int, zero Value) *ChanObj {
	w.chanSeq++
	return &ChanObj{id: w.chanSeq, cap: c, zero: zero}
}

type ltimer struct {
	t    *timer
	d    *Term
	ch   *ChanObj
	fn   *Closure
	tick bool
}

func (w *Worker) timerKey(p Value) interface{} { return [2]interface{}{"timer", p.(*Value)} }

func (w *Worker) startTimer(lt *ltimer, d *Term) {
	lt.d = d
	var fire func()
	fire = func() {
		if lt.fn != nil {
			w.spawn(lt.fn, nil)
			return
		}
		w.fireInto(lt.ch)()
		if lt.tick {
			lt.t = w.addTimer(lt.d, fire)
		}
	}
	lt.t = w.addTimer(d, fire)
}

// mkTimer allocates a *time.Timer or *time.Ticker.
func (w *Worker) mkTimer(tn string, d *Term, fn *Closure, tick bool) Value {
	t := w.E.pkgs["time"].Type(tn).Type()
	p := new(Value)
	*p = w.zero(t)
	lt := &ltimer{fn: fn, tick: tick}
	if fn == nil {
		lt.ch = w.newChan(1, w.timeZero())
		*w.fieldOf(p, t, "C") = lt.ch
	}
	w.tbl[w.timerKey(p)] = lt
	w.startTimer(lt, d)
	return p
}

func lockState(w *Worker, g *Goroutine, why string, p *Value) ictl {
	if w.spec > 0 {
		panic(specAbort{"lock"})
	}
	if (*p).(*Term).k != 0 {
		w.blockUntil(g, why, func() bool { return (*p).(*Term).k == 0 })
		return iRetry
	}
	w.set(p, w.c.Const(32, 1))
	return iDone
}

func fatal(w *Worker, msg string) { w.end("panic", "fatal", "fatal error: "+msg+" at "+w.where()) }

func init() {
	I := map[string]intrinsic{}
	intrinsics = I
	reg := func(names string, f intrinsic) {
		for _, n := range strings.Fields(names) {
			I[n] = f
		}
	}
	// --- bytes and strings
	reg("internal/bytealg.IndexByte internal/bytealg.IndexByteString bytes.IndexByte strings.IndexByte internal/stringslite.IndexByte", func(w *Worker, g *Goroutine, fr *Frame, a []Value) (Value, ictl) {
		return done(w.indexOf(w.bytesOf(a[0]), []*Term{a[1].(*Term)}))
	})
	reg("internal/bytealg.LastIndexByte internal/bytealg.LastIndexByteString bytes.LastIndexByte strings.LastIndexByte", func(w *Worker, g *Goroutine, fr *Frame, a []Value) (Value, ictl) {
		return done(w.lastIndexOf(w.bytesOf(a[0]), []*Term{a[1].(*Term)}))
	})
	reg("internal/bytealg.Count internal/bytealg.CountString", func(w *Worker, g *Goroutine, fr *Frame, a []Value) (Value, ictl) {
		return done(w.countOf(w.bytesOf(a[0]), []*Term{a[1].(*Term)}))
	})
	reg("internal/bytealg.Equal bytes.Equal", intr2(func(w *Worker, a, b []*Term) *Term { return w.bytesEq(a, b) }))
	reg("internal/bytealg.Compare internal/bytealg.CompareString bytes.Compare strings.Compare internal/runtime/strings.Compare", intr2(func(w *Worker, a, b []*Term) *Term { return w.bytesCmp(a, b) }))
	reg("internal/bytealg.Index internal/bytealg.IndexString bytes.Index strings.Index internal/stringslite.Index", intr2(func(w *Worker, a, b []*Term) *Term { return w.indexOf(a, b) }))
	reg("strings.LastIndex bytes.LastIndex", intr2(func(w *Worker, a, b []*Term) *Term { return w.lastIndexOf(a, b) }))
	reg("strings.Count bytes.Count", func(w *Worker, g *Goroutine, fr *Frame, a []Value) (Value, ictl) {
		x, y := w.bytesOf(a[0]), w.bytesOf(a[1])
		if len(y) == 0 {
			return nil, iBody
		}
		return done(w.countOf(x, y))
	})
	hasp := func(pre, contains bool) intrinsic {
		return intr2(func(w *Worker, a, b []*Term) *Term {
			if len(b) > len(a) {
				return w.c.False
			}
			if contains {
				r := w.c.False
				for i := 0; i+len(b) <= len(a); i++ {
					r = w.c.Or(r, w.matchAt(a, b, i))
				}
				return r
			}
			if pre {
				return w.matchAt(a, b, 0)
			}
			return w.matchAt(a, b, len(a)-len(b))
		})
	}
	reg("strings.HasPrefix bytes.HasPrefix internal/stringslite.HasPrefix", hasp(true, false))
	reg("strings.HasSuffix bytes.HasSuffix internal/stringslite.HasSuffix", hasp(false, false))
	reg("strings.Contains bytes.Contains", hasp(false, true))
	caseFn := func(lo, hi byte, d uint64) intrinsic {
		return func(w *Worker, g *Goroutine, fr *Frame, a []Value) (Value, ictl) {
			ts := w.bytesOf(a[0])
			if !w.branchT(w.allASCII(ts)) {
				return nil, iBody
			}
			r := w.caseMap(ts, lo, hi, d)
			if _, ok := a[0].(*Str); ok {
				return done(w.mkStr(r))
			}
			return done(w.sliceFromTerms(r, 8))
		}
	}
	up, low := caseFn('a', 'z', 0xe0), caseFn('A', 'Z', 0x20)
	reg("strings.ToUpper bytes.ToUpper", up)
	reg("strings.ToLower bytes.ToLower", low)
	reg("strings.EqualFold bytes.EqualFold", func(w *Worker, g *Goroutine, fr *Frame, a []Value) (Value, ictl) {
		x, y := w.bytesOf(a[0]), w.bytesOf(a[1])
		if !w.branchT(w.c.And(w.allASCII(x), w.allASCII(y))) {
			return nil, iBody
		}
		if len(x) != len(y) {
			return done(w.c.False)
		}
		return done(w.bytesEq(w.caseMap(x, 'A', 'Z', 0x20), w.caseMap(y, 'A', 'Z', 0x20)))
	})
	reg("internal/bytealg.MakeNoZero", func(w *Worker, g *Goroutine, fr *Frame, a []Value) (Value, ictl) {
		n := w.cint(a[0])
		return done(Slice{t: newTermArr(w.c, n, 8), len: n, cap: n})
	})
	reg("(*strings.Builder).copyCheck", nop)
	reg("internal/abi.NoEscape strings.noescape internal/abi.Escape", func(w *Worker, g *Goroutine, fr *Frame, a []Value) (Value, ictl) { return done(a[0]) })

	// --- runtime
	reg("runtime.KeepAlive runtime.SetFinalizer runtime.GC internal/race.Acquire internal/race.Release internal/race.ReleaseMerge internal/race.Disable internal/race.Enable internal/race.Read internal/race.Write runtime.LockOSThread runtime.UnlockOSThread internal/race.ReadRange internal/race.WriteRange", nop)
	reg("runtime.Gosched", func(w *Worker, g *Goroutine, fr *Frame, a []Value) (Value, ictl) {
		w.yield = true
		return done(nil)
	})
	reg("runtime.Callers runtime.GOMAXPROCS runtime.NumCPU runtime.NumGoroutine", func(w *Worker, g *Goroutine, fr *Frame, a []Value) (Value, ictl) { return done(w.c.Int(0)) })
	reg("runtime.Stack", func(w *Worker, g *Goroutine, fr *Frame, a []Value) (Value, ictl) { return done(w.c.Int(0)) })
	reg("runtime/debug.Stack", func(w *Worker, g *Goroutine, fr *Frame, a []Value) (Value, ictl) { return done(Slice{}) })
	reg("runtime/debug.PrintStack", nop)
	reg("runtime.Goexit", func(w *Worker, g *Goroutine, fr *Frame, a []Value) (Value, ictl) {
		w.goPanic(g, &panicVal{exit: true, msg: "Goexit"})
		return nil, iDone
	})
	reg("os.Exit syscall.Exit", func(w *Worker, g *Goroutine, fr *Frame, a []Value) (Value, ictl) {
		if w.spec > 0 {
			panic(specAbort{"exit"})
		}
		w.end("exit", "exit", "os.Exit at "+w.where())
		return nil, iDone
	})
	reg("os.Getenv", func(w *Worker, g *Goroutine, fr *Frame, a []Value) (Value, ictl) { return done(emptyStr) })
	reg("(*internal/godebug.Setting).Value", func(w *Worker, g *Goroutine, fr *Frame, a []Value) (Value, ictl) {
		n := w.tbl[[2]interface{}{"godebug", a[0].(*Value)}]
		if s, ok := n.(string); ok {
			return done(concStr(w.E.godebug[s]))
		}
		// settings are created by initialisers: the name is in the first field
		st := (*a[0].(*Value)).(*StructV)
		if nm, ok := st.f[0].(*Str); ok {
			s, _ := w.strConc(nm)
			return done(concStr(w.E.godebug[strings.TrimPrefix(s, "#")]))
		}
		return done(emptyStr)
	})
	reg("(*internal/godebug.Setting).IncNonDefault", nop)
	reg("internal/godebug.New", func(w *Worker, g *Goroutine, fr *Frame, a []Value) (Value, ictl) {
		t := w.E.pkgs["internal/godebug"].Type("Setting").Type()
		p := new(Value)
		*p = w.zero(t)
		*w.fieldOf(p, t, "name") = a[0]
		return done(p)
	})
	reg("unique.Make", func(w *Worker, g *Goroutine, fr *Frame, a []Value) (Value, ictl) {
		var sb strings.Builder
		var key func(v Value) Value
		key = func(v Value) Value {
			switch x := v.(type) {
			case *Term:
				k := w.concretize(x)
				fmt.Fprintf(&sb, "%d:%d,", x.w, k)
				return w.c.Const(x.w, uint64(k))
			case *Str:
				s, ok := w.strConc(x)
				if !ok {
					// symbolic text (an IPv6 zone): a handle of its own, different
					// from that of any other value
					w.uniqN++
					fmt.Fprintf(&sb, "#%d,", w.uniqN)
					return x
				}
				fmt.Fprintf(&sb, "%q,", s)
				return concStr(s)
			case *StructV:
				n := &StructV{f: make([]Value, len(x.f))}
				sb.WriteString("{")
				for i, f := range x.f {
					n.f[i] = key(f)
				}
				sb.WriteString("}")
				return n
			}
			w.unsupported("unique.Make of %T", v)
			return nil
		}
		cv := key(a[0])
		if w.uniq == nil {
			w.uniq = map[string]*Value{}
		}
		p := w.uniq[sb.String()]
		if p == nil {
			p = new(Value)
			*p = cv
			w.uniq[sb.String()] = p
		}
		return done(&StructV{f: []Value{p}})
	})
	fmtFloat := func(w *Worker, v Value, a []Value) string {
		f := v.(FloatV)
		if f.sym != nil {
			w.unsupported("format of symbolic float")
		}
		return strconv.FormatFloat(f.f, byte(w.concretize(a[0].(*Term))), int(int64(w.concretize(a[1].(*Term)))), int(int64(w.concretize(a[2].(*Term)))))
	}
	reg("strconv.FormatFloat", func(w *Worker, g *Goroutine, fr *Frame, a []Value) (Value, ictl) {
		return done(concStr(fmtFloat(w, a[0], a[1:])))
	})
	reg("strconv.AppendFloat", func(w *Worker, g *Goroutine, fr *Frame, a []Value) (Value, ictl) {
		ts := append([]*Term{}, w.sliceTerms(a[0].(Slice))...)
		for _, b := range []byte(fmtFloat(w, a[1], a[2:])) {
			ts = append(ts, w.c.Const(8, uint64(b)))
		}
		return done(w.sliceFromTerms(ts, 8))
	})
	for n, op := range map[string]func(float64) float64{"math.Floor": math.Floor, "math.Ceil": math.Ceil, "math.Trunc": math.Trunc, "math.Round": math.Round, "math.Sqrt": math.Sqrt, "math.Abs": math.Abs} {
		n, op := n, op
		reg(n, func(w *Worker, g *Goroutine, fr *Frame, a []Value) (Value, ictl) {
			f := a[0].(FloatV)
			if f.sym != nil {
				if n == "math.Sqrt" || n == "math.Abs" {
					w.unsupported("%s of symbolic float", n)
				}
				return done(f) // a whole number
			}
			f.f = op(f.f)
			return done(f)
		})
	}
	reg("runtime.Caller", func(w *Worker, g *Goroutine, fr *Frame, a []Value) (Value, ictl) {
		return done(Tuple{w.c.Int(0), emptyStr, w.c.Int(0), w.c.False})
	})
	reg("math.Float64bits", func(w *Worker, g *Goroutine, fr *Frame, a []Value) (Value, ictl) {
		f := a[0].(FloatV)
		if f.sym != nil {
			w.unsupported("bits of symbolic float")
		}
		return done(w.c.Const(64, math.Float64bits(f.f)))
	})
	reg("math.Float32bits", func(w *Worker, g *Goroutine, fr *Frame, a []Value) (Value, ictl) {
		f := a[0].(FloatV)
		if f.sym != nil {
			w.unsupported("bits of symbolic float")
		}
		return done(w.c.Const(32, uint64(math.Float32bits(float32(f.f)))))
	})
	reg("math.Float64frombits", func(w *Worker, g *Goroutine, fr *Frame, a []Value) (Value, ictl) {
		return done(FloatV{f: math.Float64frombits(uint64(w.concretize(a[0].(*Term)))), w: 64})
	})
	reg("math.Float32frombits", func(w *Worker, g *Goroutine, fr *Frame, a []Value) (Value, ictl) {
		return done(FloatV{f: float64(math.Float32frombits(uint32(w.concretize(a[0].(*Term))))), w: 32})
	})
	// random numbers are unknown
	reg("math/rand.Uint32", func(w *Worker, g *Goroutine, fr *Frame, a []Value) (Value, ictl) {
		return done(w.input(w.inputName("random number"), 32))
	})
	// --- log
	reg("fmt.Print fmt.Printf fmt.Println", func(w *Worker, g *Goroutine, fr *Frame, a []Value) (Value, ictl) {
		return done(Tuple{w.c.Int(0), Iface{}})
	})

	// --- time
	reg("time.Now", func(w *Worker, g *Goroutine, fr *Frame, a []Value) (Value, ictl) {
		if w.initDepth > 0 {
			return done(w.timeVal(w.c.Const(64, 0)))
		}
		return done(w.timeVal(w.now))
	})
	reg("time.runtimeNano time.runtimeNow", func(w *Worker, g *Goroutine, fr *Frame, a []Value) (Value, ictl) {
		if w.initDepth > 0 {
			return done(w.c.Const(64, 0)) // initialisers ran before everything else
		}
		return done(w.now)
	})
	reg("time.runtimeIsBubbled", func(w *Worker, g *Goroutine, fr *Frame, a []Value) (Value, ictl) { return done(w.c.False) })
	reg("time.After", func(w *Worker, g *Goroutine, fr *Frame, a []Value) (Value, ictl) {
		if w.spec > 0 {
			panic(specAbort{"timer"})
		}
		ch := w.newChan(1, w.timeZero())
		w.addTimer(a[0].(*Term), w.fireInto(ch))
		return done(ch)
	})
	reg("time.Sleep", func(w *Worker, g *Goroutine, fr *Frame, a []Value) (Value, ictl) {
		if w.spec > 0 {
			panic(specAbort{"sleep"})
		}
		d := a[0].(*Term)
		if w.branch(w.c.Sle(d, w.c.Const(64, 0))) {
			return done(nil)
		}
		w.block(g, "sleep")
		w.addTimer(d, func() { w.wake(g) })
		return nil, iBlock
	})
	reg("time.NewTimer", func(w *Worker, g *Goroutine, fr *Frame, a []Value) (Value, ictl) {
		return done(w.mkTimer("Timer", a[0].(*Term), nil, false))
	})
	reg("time.AfterFunc", func(w *Worker, g *Goroutine, fr *Frame, a []Value) (Value, ictl) {
		return done(w.mkTimer("Timer", a[0].(*Term), a[1].(*Closure), false))
	})
	reg("time.NewTicker", func(w *Worker, g *Goroutine, fr *Frame, a []Value) (Value, ictl) {
		return done(w.mkTimer("Ticker", a[0].(*Term), nil, true))
	})
	reg("(*time.Timer).Stop (*time.Ticker).Stop", func(w *Worker, g *Goroutine, fr *Frame, a []Value) (Value, ictl) {
		lt, _ := w.tbl[w.timerKey(a[0])].(*ltimer)
		if lt == nil {
			w.unsupported("Stop of unknown timer")
		}
		act := lt.t.active
		lt.t.active = false
		return done(w.c.Bool(act))
	})
	reg("(*time.Timer).Reset (*time.Ticker).Reset", func(w *Worker, g *Goroutine, fr *Frame, a []Value) (Value, ictl) {
		lt, _ := w.tbl[w.timerKey(a[0])].(*ltimer)
		if lt == nil {
			w.unsupported("Reset of unknown timer")
		}
		act := lt.t.active
		lt.t.active = false
		w.startTimer(lt, a[1].(*Term))
		return done(w.c.Bool(act))
	})

	// --- sync
	mstate := func(w *Worker, fn *ssa.Function, p Value) *Value {
		t := recvElem(fn)
		st := t.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "mu" {
				return w.fieldOf(p, t, "mu", "state")
			}
		}
		return w.fieldOf(p, t, "state")
	}
	I["(*sync.Mutex).Lock"] = func(w *Worker, g *Goroutine, fr *Frame, a []Value) (Value, ictl) {
		if a[0].(*Value) == nil {
			w.goPanicStr(g, "nil", "invalid memory address or nil pointer dereference")
			return nil, iDone
		}
		return nil, lockState(w, g, "mutex lock", mstate(w, w.E.meth("sync", "Mutex", "Lock"), a[0]))
	}
	I["(*sync.Mutex).TryLock"] = func(w *Worker, g *Goroutine, fr *Frame, a []Value) (Value, ictl) {
		p := mstate(w, w.E.meth("sync", "Mutex", "Lock"), a[0])
		if (*p).(*Term).k != 0 {
			return done(w.c.False)
		}
		w.set(p, w.c.Const(32, 1))
		return done(w.c.True)
	}
	I["(*sync.Mutex).Unlock"] = func(w *Worker, g *Goroutine, fr *Frame, a []Value) (Value, ictl) {
		p := mstate(w, w.E.meth("sync", "Mutex", "Lock"), a[0])
		if (*p).(*Term).k == 0 {
			fatal(w, "sync: unlock of unlocked mutex")
		}
		w.set(p, w.c.Const(32, 0))
		return done(nil)
	}
	rwf := func(w *Worker, p Value) (*Value, *Value) {
		t := recvElem(w.E.meth("sync", "RWMutex", "Lock"))
		return w.fieldOf(p, t, "writerSem"), w.fieldOf(p, t, "readerSem")
	}
	I["(*sync.RWMutex).Lock"] = func(w *Worker, g *Goroutine, fr *Frame, a []Value) (Value, ictl) {
		wl, rc := rwf(w, a[0])
		free := func() bool { return (*wl).(*Term).k == 0 && (*rc).(*Term).k == 0 }
		if !free() {
			w.blockUntil(g, "rwmutex lock", free)
			return nil, iRetry
		}
		w.set(wl, w.c.Const(32, 1))
		return done(nil)
	}
	I["(*sync.RWMutex).Unlock"] = func(w *Worker, g *Goroutine, fr *Frame, a []Value) (Value, ictl) {
		wl, _ := rwf(w, a[0])
		if (*wl).(*Term).k == 0 {
			fatal(w, "sync: Unlock of unlocked RWMutex")
		}
		w.set(wl, w.c.Const(32, 0))
		return done(nil)
	}
	I["(*sync.RWMutex).RLock"] = func(w *Worker, g *Goroutine, fr *Frame, a []Value) (Value, ictl) {
		wl, rc := rwf(w, a[0])
		if (*wl).(*Term).k != 0 {
			w.blockUntil(g, "rwmutex rlock", func() bool { return (*wl).(*Term).k == 0 })
			return nil, iRetry
		}
		w.set(rc, w.c.Const(32, (*rc).(*Term).k+1))
		return done(nil)
	}
	I["(*sync.RWMutex).RUnlock"] = func(w *Worker, g *Goroutine, fr *Frame, a []Value) (Value, ictl) {
		_, rc := rwf(w, a[0])
		if (*rc).(*Term).k == 0 {
			fatal(w, "sync: RUnlock of unlocked RWMutex")
		}
		w.set(rc, w.c.Const(32, (*rc).(*Term).k-1))
		return done(nil)
	}
	wgf := func(w *Worker, p Value) *Value {
		return w.fieldOf(p, recvElem(w.E.meth("sync", "WaitGroup", "Add")), "sema")
	}
	wgAdd := func(w *Worker, p Value, d int64) {
		c := wgf(w, p)
		n := sext64((*c).(*Term).k, 32) + d
		if n < 0 {
			w.end("panic", "panic", "panic: sync: negative WaitGroup counter at "+w.where())
		}
		w.set(c, w.c.Const(32, uint64(n)))
	}
	I["(*sync.WaitGroup).Add"] = func(w *Worker, g *Goroutine, fr *Frame, a []Value) (Value, ictl) {
		wgAdd(w, a[0], int64(w.cint(a[1])))
		return done(nil)
	}
	I["(*sync.WaitGroup).Done"] = func(w *Worker, g *Goroutine, fr *Frame, a []Value) (Value, ictl) {
		wgAdd(w, a[0], -1)
		return done(nil)
	}
	I["(*sync.WaitGroup).Wait"] = func(w *Worker, g *Goroutine, fr *Frame, a []Value) (Value, ictl) {
		c := wgf(w, a[0])
		z := func() bool { return (*c).(*Term).k == 0 }
		if !z() {
			w.blockUntil(g, "waitgroup", z)
			return nil, iRetry
		}
		return done(nil)
	}
	I["(*sync.copyChecker).check"] = nop
	I["sync.runtime_notifyListAdd"] = func(w *Worker, g *Goroutine, fr *Frame, a []Value) (Value, ictl) {
		nl := w.notify(a[0])
		nl.next++
		return done(w.c.Const(32, uint64(nl.next-1)))
	}
	I["sync.runtime_notifyListWait"] = func(w *Worker, g *Goroutine, fr *Frame, a []Value) (Value, ictl) {
		nl := w.notify(a[0])
		tk := uint32(a[1].(*Term).k)
		if tk < nl.notified {
			return done(nil)
		}
		w.blockUntil(g, "cond wait", func() bool { return tk < nl.notified })
		return nil, iRetry
	}
	I["sync.runtime_notifyListNotifyAll"] = func(w *Worker, g *Goroutine, fr *Frame, a []Value) (Value, ictl) {
		nl := w.notify(a[0])
		nl.notified = nl.next
		return done(nil)
	}
	I["sync.runtime_notifyListNotifyOne"] = func(w *Worker, g *Goroutine, fr *Frame, a []Value) (Value, ictl) {
		nl := w.notify(a[0])
		if nl.notified < nl.next {
			nl.notified++
		}
		return done(nil)
	}
	I["(*sync.Pool).Get"] = func(w *Worker, g *Goroutine, fr *Frame, a []Value) (Value, ictl) {
		f, _ := (*w.fieldOf(a[0], recvElem(w.E.meth("sync", "Pool", "Get")), "New")).(*Closure)
		if f == nil {
			return done(Iface{})
		}
		w.pushFrame(g, w.fnInfo(f.fn), nil, f.free, -1)
		return nil, iPushed
	}
	I["(*sync.Pool).Put"] = nop
	I["(*sync/atomic.Value).Load"] = func(w *Worker, g *Goroutine, fr *Frame, a []Value) (Value, ictl) {
		return done(*w.fieldOf(a[0], recvElem(w.E.meth("sync/atomic", "Value", "Load")), "v"))
	}
	I["(*sync/atomic.Value).Store"] = func(w *Worker, g *Goroutine, fr *Frame, a []Value) (Value, ictl) {
		w.set(w.fieldOf(a[0], recvElem(w.E.meth("sync/atomic", "Value", "Load")), "v"), a[1])
		return done(nil)
	}
	// --- reflect helpers used by sort
	I["internal/reflectlite.Swapper"] = func(w *Worker, g *Goroutine, fr *Frame, a []Value) (Value, ictl) {
		s := a[0].(Iface).v.(Slice)
		return done(&Closure{nat: func(w *Worker, g *Goroutine, args []Value) Value {
			i, j := w.cint(args[0]), w.cint(args[1])
			if s.t != nil {
				x, y := s.t.get(s.off+i), s.t.get(s.off+j)
				w.tset(s.t, s.off+i, y)
				w.tset(s.t, s.off+j, x)
				return nil
			}
			x, y := w.copyVal(s.c.cells[s.off+i]), w.copyVal(s.c.cells[s.off+j])
			w.storeCell(&s.c.cells[s.off+i], y)
			w.storeCell(&s.c.cells[s.off+j], x)
			return nil
		}})
	}
	I["sort.Slice"] = func(w *Worker, g *Goroutine, fr *Frame, a []Value) (Value, ictl) {
		s := a[0].(Iface).v.(Slice)
		f := w.E.lookupFn(vmodelPath, "SortSlice")
		sw, _ := I["internal/reflectlite.Swapper"](w, g, fr, a[:1])
		w.pushFrame(g, w.fnInfo(f), []Value{w.c.Int(s.len), a[1], sw}, nil, -1)
		return nil, iPushed
	}
	I["sort.SliceStable"] = I["sort.Slice"]

	// --- models
	I[vmodelPath+".md5raw"] = func(w *Worker, g *Goroutine, fr *Frame, a []Value) (Value, ictl) {
		return done(w.md5(w.bytesOf(a[0])))
	}
	I[vmodelPath+".digits"] = func(w *Worker, g *Goroutine, fr *Frame, a []Value) (Value, ictl) {
		// the n decimal digits of x, which has that many: digits d of the sum
		// of d*10^k exist and are unique, so they are introduced as unknowns
		x, n := a[0].(*Term), w.cint(a[1])
		ts := make([]*Term, n)
		if x.isConst() {
			for i, v := n-1, x.k; i >= 0; i, v = i-1, v/10 {
				ts[i] = w.c.Const(8, '0'+v%10)
			}
			return done(w.sliceFromTerms(ts, 8))
		}
		if n == 1 {
			ts[0] = w.c.Bin(OAdd, w.c.Extract(x, 7, 0), w.c.Const(8, '0'))
			return done(w.sliceFromTerms(ts, 8))
		}
		key := digitsOf{x, n}
		if v, ok := w.tbl[key]; ok {
			return done(w.sliceFromTerms(append([]*Term{}, v.([]*Term)...), 8))
		}
		if w.spec > 0 {
			panic(specAbort{"digits"})
		}
		nm := w.inputName("decimal digits")
		sum := w.c.Const(64, 0)
		for i := range ts {
			ts[i] = w.c.Var(nm+"."+strconv.Itoa(i), 8)
			w.assume(w.c.Ule(w.c.Const(8, '0'), ts[i]))
			w.assume(w.c.Ule(ts[i], w.c.Const(8, '9')))
			sum = w.c.Bin(OAdd, w.c.Bin(OMul, sum, w.c.Const(64, 10)), w.c.Bin(OSub, w.c.Zext(ts[i], 64), w.c.Const(64, '0')))
		}
		w.assume(w.c.Eq(x, sum))
		w.tbl[key] = ts
		return done(w.sliceFromTerms(append([]*Term{}, ts...), 8))
	}
	I[vmodelPath+".unmodelled"] = func(w *Worker, g *Goroutine, fr *Frame, a []Value) (Value, ictl) {
		if w.spec > 0 {
			panic(specAbort{"unmodelled"})
		}
		w.unsupported("not modelled: %s", w.cstr(a[0]))
		return nil, iDone
	}
	I[vmodelPath+".floatAsInt"] = func(w *Worker, g *Goroutine, fr *Frame, a []Value) (Value, ictl) {
		f := a[0].(FloatV)
		if f.sym != nil {
			return done(Tuple{f.sym, w.c.True})
		}
		return done(Tuple{w.c.Int(0), w.c.False})
	}
	I[vmodelPath+".comparableErr"] = func(w *Worker, g *Goroutine, fr *Frame, a []Value) (Value, ictl) {
		return done(w.c.Bool(types.Comparable(a[0].(Iface).t)))
	}
	I[vmodelPath+".errAs"] = func(w *Worker, g *Goroutine, fr *Frame, a []Value) (Value, ictl) {
		err, tg := a[0].(Iface), a[1].(Iface)
		pt, ok := tg.t.Underlying().(*types.Pointer)
		if !ok {
			w.unsupported("errors.As: target is no pointer")
		}
		if it, isIf := pt.Elem().Underlying().(*types.Interface); isIf {
			if !w.implements(err.t, it) {
				return done(w.c.False)
			}
			w.storeP(tg.v, err)
			return done(w.c.True)
		}
		if w.E.canon(pt.Elem()) != err.t {
			return done(w.c.False)
		}
		w.storeP(tg.v, err.v)
		return done(w.c.True)
	}
	I[vmodelPath+".typeName"] = func(w *Worker, g *Goroutine, fr *Frame, a []Value) (Value, ictl) {
		i := a[0].(Iface)
		if i.t == nil {
			return done(concStr("<nil>"))
		}
		return done(concStr(i.t.String()))
	}
	I[vmodelPath+".anyKind"] = func(w *Worker, g *Goroutine, fr *Frame, a []Value) (Value, ictl) {
		// returns kind and the value as int64/string for named basic types
		i := a[0].(Iface)
		z := w.c.Int(0)
		if i.t == nil {
			return done(Tuple{w.c.Int(0), z, emptyStr})
		}
		switch x := i.v.(type) {
		case *Term:
			if x.w == 0 {
				return done(Tuple{w.c.Int(3), w.c.Zext(w.c.Ite(x, w.c.Const(8, 1), w.c.Const(8, 0)), 64), emptyStr})
			}
			if w.ti(i.t).signed {
				return done(Tuple{w.c.Int(1), w.c.Sext(x, 64), emptyStr})
			}
			return done(Tuple{w.c.Int(2), w.c.Zext(x, 64), emptyStr})
		case *Str:
			return done(Tuple{w.c.Int(4), z, x})
		case Slice:
			if x.isNil() || x.t != nil && x.t.w == 8 {
				return done(Tuple{w.c.Int(5), z, w.mkStr(w.sliceTerms(x))})
			}
		case *TermArr:
			if x.w == 8 {
				ts := make([]*Term, x.n)
				for j := range ts {
					ts[j] = x.get(j)
				}
				return done(Tuple{w.c.Int(5), z, w.mkStr(ts)})
			}
		case FloatV:
			return done(Tuple{w.c.Int(6), z, emptyStr})
		}
		return done(Tuple{w.c.Int(9), z, emptyStr})
	}
	I[vmodelPath+".anyFloat"] = func(w *Worker, g *Goroutine, fr *Frame, a []Value) (Value, ictl) {
		f := a[0].(Iface).v.(FloatV)
		bits := w.c.Int(int(f.w))
		f.w = 64
		return done(Tuple{f, bits})
	}

	// --- vsym: the harness interface
	in := func(wd uint8) intrinsic {
		return func(w *Worker, g *Goroutine, fr *Frame, a []Value) (Value, ictl) {
			if w.spec > 0 {
				panic(specAbort{"input"})
			}
			return done(w.input(w.inputName(w.cstr(a[0])), wd))
		}
	}
	V := func(n string, f intrinsic) { I[vsymPath+"."+n] = f }
	V("Byte", in(8))
	V("U16", in(16))
	V("U32", in(32))
	V("U64", in(64))
	V("Int", in(64))
	V("Int64", in(64))
	V("Bool", in(0))
	bytesIn := func(w *Worker, a []Value) []*Term {
		if w.spec > 0 {
			panic(specAbort{"input"})
		}
		n := w.cint(a[1])
		nm := w.inputName(w.cstr(a[0]))
		ts := make([]*Term, n)
		for i := range ts {
			ts[i] = w.input(nm+"."+strconv.Itoa(i), 8)
		}
		return ts
	}
	V("Bytes", func(w *Worker, g *Goroutine, fr *Frame, a []Value) (Value, ictl) {
		return done(w.sliceFromTerms(bytesIn(w, a), 8))
	})
	V("Str", func(w *Worker, g *Goroutine, fr *Frame, a []Value) (Value, ictl) {
		return done(w.mkStr(bytesIn(w, a)))
	})
	V("Choose", func(w *Worker, g *Goroutine, fr *Frame, a []Value) (Value, ictl) {
		lo, hi := w.cint(a[1]), w.cint(a[2])
		nm := w.inputName(w.cstr(a[0]))
		if hi < lo {
			w.end("assume", "", "")
		}
		k := w.choose(nm, hi-lo+1)
		w.chosen[nm] = uint64(int64(lo + k))
		return done(w.c.Int(lo + k))
	})
	V("Assume", func(w *Worker, g *Goroutine, fr *Frame, a []Value) (Value, ictl) {
		w.assume(a[0].(*Term))
		return done(nil)
	})
	V("Assert", func(w *Worker, g *Goroutine, fr *Frame, a []Value) (Value, ictl) {
		t := a[0].(*Term)
		if w.spec > 0 {
			panic(specAbort{"assert"})
		}
		if t.isTrue() {
			w.assertsT++
			return done(nil)
		}
		w.asserts++
		if t.isFalse() || !w.branch(t) {
			l := w.cstr(a[1])
			w.end("assert", l, "assertion failed: "+l)
		}
		return done(nil)
	})
	V("Fail", func(w *Worker, g *Goroutine, fr *Frame, a []Value) (Value, ictl) {
		if w.spec > 0 {
			panic(specAbort{"assert"})
		}
		l := w.cstr(a[0])
		w.asserts++
		w.end("assert", l, "assertion failed: "+l)
		return nil, iDone
	})
	V("Reach", func(w *Worker, g *Goroutine, fr *Frame, a []Value) (Value, ictl) {
		w.reach[w.cstr(a[0])] = true
		return done(nil)
	})
	V("Out", func(w *Worker, g *Goroutine, fr *Frame, a []Value) (Value, ictl) {
		o := outRec{label: w.cstr(a[0])}
		s := a[1].(Slice)
		for i := 0; i < s.len; i++ {
			v := s.c.cells[s.off+i]
			if iv, ok := v.(Iface); ok {
				if sl, ok := iv.v.(Slice); ok && sl.t != nil {
					// snapshot
					v = Iface{iv.t, w.sliceFromTerms(w.sliceTerms(sl), sl.t.w)}
				}
			}
			o.vals = append(o.vals, v)
		}
		w.outs = append(w.outs, o)
		return done(nil)
	})
	V("Sched", func(w *Worker, g *Goroutine, fr *Frame, a []Value) (Value, ictl) {
		w.sched = true
		w.budget = w.cint(a[0])
		return done(nil)
	})
	V("Yield", func(w *Worker, g *Goroutine, fr *Frame, a []Value) (Value, ictl) {
		if !w.sched || w.initDepth > 0 {
			return done(nil)
		}
		if w.spec > 0 {
			panic(specAbort{"yield"})
		}
		if g.nested {
			return done(nil)
		}
		return nil, w.yieldPoint(g, w.cstr(a[0]))
	})
	V("Tier", func(w *Worker, g *Goroutine, fr *Frame, a []Value) (Value, ictl) { return done(w.c.Int(w.E.tier)) })
	V("Native", func(w *Worker, g *Goroutine, fr *Frame, a []Value) (Value, ictl) { return done(w.c.False) })
	V("Quiesce", func(w *Worker, g *Goroutine, fr *Frame, a []Value) (Value, ictl) {
		if g != w.main {
			w.unsupported("Quiesce outside the harness goroutine")
		}
		g.quiesce = true
		w.block(g, "quiesce")
		return nil, iBlock
	})
	V("Goroutines", func(w *Worker, g *Goroutine, fr *Frame, a []Value) (Value, ictl) {
		if w.spec > 0 {
			panic(specAbort{"goroutines"})
		}
		n := 0
		for _, x := range w.gs {
			if x != w.main && x.status != gDone && !x.nested {
				n++
			}
		}
		return done(w.c.Int(n))
	})
	V("Concrete", func(w *Worker, g *Goroutine, fr *Frame, a []Value) (Value, ictl) {
		return done(w.c.Int(w.cint(a[0])))
	})
	V("IsConcrete", func(w *Worker, g *Goroutine, fr *Frame, a []Value) (Value, ictl) {
		return done(w.c.Bool(a[0].(*Term).isConst()))
	})
}

type notifyList struct{ next, notified uint32 }

func (w *Worker) notify(p Value) *notifyList {
	k := [2]interface{}{"notify", p.(*Value)}
	nl, _ := w.tbl[k].(*notifyList)
	if nl == nil {
		nl = &notifyList{}
		w.tbl[k] = nl
	}
	return nl
}

func (e *Engine) meth(pkg, typ, name string) *ssa.Function {
	p := e.pkgs[pkg]
	t := types.NewPointer(p.Type(typ).Type())
	e.mu.Lock()
	defer e.mu.Unlock()
	return e.prog.LookupMethod(t, p.Pkg, name)
}
