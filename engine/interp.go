package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type Opnd struct {
	reg int
	val Value
	glb *ssa.Global
	non bool
}

type Instr struct {
	in  ssa.Instruction
	dst int
	ops []Opnd
}

type BlockInfo struct {
	pure   int // 1 when the block only computes, 2 when not, 0 unknown
	idx    int
	instrs []Instr
	nphi   int
	succs  []*BlockInfo
	preds  []int
	merge  *mergeInfo
	mdone  bool
	exits  *exitInfo
	xdone  bool
}

type FnInfo struct {
	fn      *ssa.Function
	nregs   int
	blocks  []*BlockInfo
	reg     map[ssa.Value]int
	name    string
	target  bool // function of the code under test
	intr    intrinsic
	pure    int8 // 0 unknown, 1 yes, -1 no
	recover *BlockInfo
	hits    int64
	symHits int64
	ldMerge bool
}

type deferred struct {
	fn   *Closure
	args []Value
}

type Frame struct {
	fi        *FnInfo
	env       []Value
	block     *BlockInfo
	prev      int
	pc        int
	defers    []deferred
	retReg    int  // register of caller to store the result into, -1 none
	isDefer   bool // this frame runs a deferred call of the frame below
	running   int  // 0 normal, 1 RunDefers, 2 panicking
	pan       *panicVal
	recovered bool
	onReturn  func(v Value) // native continuation
	result    Value
	syncDepth int
}

type panicVal struct {
	v     Value // Iface
	msg   string
	where string
	exit  bool // runtime.Goexit
}

type gstatus int

const (
	gRun gstatus = iota
	gBlocked
	gDone
)

type Goroutine struct {
	id      int
	frames  []*Frame
	status  gstatus
	why     string
	retVal  Value
	nested  bool
	crashed *panicVal

	waitOn    func() bool
	quiesce   bool
	wakePanic *panicVal
}

// path-ending signals
type endPath struct {
	kind  string // "ok","assume","assert","panic","exit","deadlock","steps","unsupported","unknown","bound"
	label string
	msg   string
}

type specAbort struct{ why string }

func (w *Worker) end(kind, label, msg string) { panic(endPath{kind, label, msg}) }
func (w *Worker) unsupported(f string, a ...interface{}) {
	panic(endPath{"unsupported", "", fmt.Sprintf(f, a...) + " at " + w.where()})
}

func (w *Worker) where() string {
	if w.cur == nil || len(w.cur.frames) == 0 {
		return "?"
	}
	var sb strings.Builder
	n := 0
	for i := len(w.cur.frames) - 1; i >= 0 && n < 6; i-- {
		fr := w.cur.frames[i]
		pos := ""
		if fr.pc < len(fr.block.instrs) {
			p := w.E.prog.Fset.Position(fr.block.instrs[fr.pc].in.Pos())
			if p.IsValid() {
				f := p.Filename
				if k := strings.LastIndex(f, "/"); k >= 0 {
					f = f[k+1:]
				}
				pos = fmt.Sprintf("(%s:%d)", f, p.Line)
			}
		}
		fmt.Fprintf(&sb, "%s%s <- ", fr.fi.name, pos)
		n++
	}
	return strings.TrimSuffix(sb.String(), " <- ")
}

// ---- compilation

func (w *Worker) fnInfo(fn *ssa.Function) *FnInfo {
	if fi, ok := w.fns[fn]; ok {
		return fi
	}
	name := fn.String()
	if fn.Origin() != nil {
		name = fn.Origin().String()
	}
	fi := &FnInfo{fn: fn, name: name}
	w.fns[fn] = fi
	fi.target = w.E.isTarget(fn)
	fi.intr = intrinsics[name]
	if fi.intr == nil {
		fi.intr = patternIntrinsic(name, fn)
	}
	if fi.intr == nil {
		if m, ok := w.E.redirect[name]; ok && m != fn {
			r := w.fnInfo(m)
			w.fns[fn] = r
			return r
		}
	}
	if fi.intr == nil && fn.Blocks == nil {
		if fn.Pkg != nil {
			fn.Pkg.Build()
		}
	}
	if fi.intr == nil && fn.Blocks == nil {
		fi.intr = func(w *Worker, g *Goroutine, fr *Frame, args []Value) (Value, ictl) {
			w.unsupported("no body and no intrinsic for %s", name)
			return nil, iDone
		}
	}
	if fi.intr != nil {
		return fi
	}
	w.compileBody(fi)
	return fi
}

// compileBody translates the SSA body of fi.
func (w *Worker) compileBody(fi *FnInfo) {
	fn := fi.fn
	if fi.blocks != nil {
		return
	}
	if fn.Blocks == nil && fn.Pkg != nil {
		fn.Pkg.Build()
	}
	if fn.Blocks == nil {
		w.unsupported("no body for %s", fi.name)
	}
	reg := map[ssa.Value]int{}
	n := 0
	add := func(v ssa.Value) { reg[v] = n; n++ }
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	fi.nregs = n
	fi.reg = reg
	bis := make([]*BlockInfo, len(fn.Blocks))
	for i := range fn.Blocks {
		bis[i] = &BlockInfo{idx: i}
	}
	for i, b := range fn.Blocks {
		bi := bis[i]
		for _, s := range b.Succs {
			bi.succs = append(bi.succs, bis[s.Index])
		}
		for _, p := range b.Preds {
			bi.preds = append(bi.preds, p.Index)
		}
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			ins := Instr{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				ins.dst = reg[v]
			}
			if _, ok := in.(*ssa.Phi); ok {
				bi.nphi++
			}
			for _, op := range in.Operands(nil) {
				ins.ops = append(ins.ops, w.opnd(*op, reg))
			}
			bi.instrs = append(bi.instrs, ins)
		}
	}
	fi.blocks = bis
	if fn.Recover != nil {
		fi.recover = bis[fn.Recover.Index]
	}
}

func (w *Worker) opnd(v ssa.Value, reg map[ssa.Value]int) Opnd {
	switch x := v.(type) {
	case nil:
		return Opnd{reg: -1, non: true}
	case *ssa.Const:
		return Opnd{reg: -1, val: w.constVal(x)}
	case *ssa.Global:
		return Opnd{reg: -1, glb: x}
	case *ssa.Function:
		return Opnd{reg: -1, val: &Closure{fn: x}}
	case *ssa.Builtin:
		return Opnd{reg: -1, val: &Closure{bi: x}}
	}
	r, ok := reg[v]
	if !ok {
		panic(engineErr{"no register for " + v.String()})
	}
	return Opnd{reg: r}
}

func (w *Worker) constVal(x *ssa.Const) Value {
	if x.Value == nil {
		return w.zero(x.Type())
	}
	t := x.Type().Underlying()
	if tp, ok := t.(*types.TypeParam); ok {
		_ = tp
		panic(engineErr{"type param const"})
	}
	if ti := w.ti(x.Type()); ti.scalar {
		if ti.w == 0 {
			return w.c.Bool(constant.BoolVal(x.Value))
		}
		if ti.signed {
			return w.c.Const(ti.w, uint64(x.Int64()))
		}
		return w.c.Const(ti.w, x.Uint64())
	}
	if b, ok := t.(*types.Basic); ok {
		switch {
		case b.Info()&types.IsString != 0:
			if x.Value.Kind() == constant.String {
				return concStr(constant.StringVal(x.Value))
			}
			return concStr(string(rune(x.Int64())))
		case b.Info()&types.IsFloat != 0:
			wd := uint8(64)
			if b.Kind() == types.Float32 {
				wd = 32
			}
			return FloatV{f: x.Float64(), w: wd}
		case b.Info()&types.IsComplex != 0:
			return FloatV{w: 64}
		}
	}
	panic(engineErr{"const " + x.String() + " of type " + x.Type().String()})
}

func (w *Worker) get(fr *Frame, o *Opnd) Value {
	if o.reg >= 0 {
		return fr.env[o.reg]
	}
	if o.glb != nil {
		return w.globalPtr(o.glb)
	}
	return o.val
}

// ---- globals

func (w *Worker) globalPtr(g *ssa.Global) *Value {
	if p, ok := w.globals[g]; ok {
		if g.Pkg != nil && !w.inited[g.Pkg] {
			w.initPkg(g.Pkg)
		}
		return p
	}
	p := new(Value)
	*p = w.zero(g.Type().(*types.Pointer).Elem())
	w.globals[g] = p
	if g.Pkg != nil && !w.inited[g.Pkg] {
		w.initPkg(g.Pkg)
	}
	return p
}

var skipInit = map[string]bool{
	"runtime": true, "internal/runtime/sys": true, "internal/cpu": true, "os": true, "syscall": true, "internal/poll": true, "internal/godebug": true, "log": false,
	"runtime/debug": true, "internal/runtime/atomic": true, "internal/abi": true, "reflect": true, "unsafe": true, "internal/syscall/unix": true, "internal/testlog": true,
	"internal/reflectlite": true, "net/http": true, "crypto/tls": true, "crypto/x509": true, "internal/sync": true, "sync": true, "internal/bisect": true, "unique": true,
	"internal/runtime/maps": true, "crypto/md5": true, "internal/bytealg": true, "internal/fuzz": true, "os/signal": true, "runtime/internal/sys": true, "weak": true,
	"mime": true, "crypto/internal/fips140": true, "math/rand": true, "math/rand/v2": true, "internal/oserror": false,
}

func (w *Worker) initPkg(p *ssa.Package) {
	if w.inited[p] {
		return
	}
	w.inited[p] = true
	path := p.Pkg.Path()
	if skipInit[path] {
		return
	}
	init := p.Func("init")
	if init == nil {
		return
	}
	p.Build()
	// run initialisers concretely, outside the path journal
	savedJ, savedCur, savedSteps, savedSpec, savedEnum, savedSched := w.journalOn, w.cur, w.steps, w.spec, w.enum, w.sched
	w.journalOn = false
	w.spec = 0
	w.enum = nil
	w.sched = false
	w.initDepth++
	defer func() {
		w.journalOn, w.cur, w.steps, w.spec, w.enum, w.sched = savedJ, savedCur, savedSteps, savedSpec, savedEnum, savedSched
		w.initDepth--
		if r := recover(); r != nil {
			if e, ok := r.(endPath); ok {
				w.E.note(fmt.Sprintf("init of %s incomplete: %s %s", path, e.kind, e.msg))
				return
			}
			panic(r)
		}
	}()
	fi := w.fnInfo(init)
	w.runNested(fi, nil, nil)
}

// runNested runs a function to completion on a private goroutine (no scheduling).
func (w *Worker) runNested(fi *FnInfo, args []Value, free []Value) Value {
	g := &Goroutine{id: -1, nested: true}
	saved := w.cur
	w.cur = g
	defer func() { w.cur = saved }()
	if fi.intr != nil {
		v, ctl := fi.intr(w, g, &Frame{fi: fi, block: &BlockInfo{}}, args)
		if ctl == iBody {
			w.compileBody(fi)
			w.pushFrame(g, fi, args, free, -1)
			w.runG(g)
			if g.crashed != nil {
				panic(nestedPanic{g.crashed})
			}
			return g.retVal
		}
		if ctl != iDone {
			if ctl == iPushed {
				w.runG(g)
				return g.retVal
			}
			w.unsupported("nested blocking intrinsic %s", fi.name)
		}
		return v
	}
	w.pushFrame(g, fi, args, free, -1)
	w.runG(g)
	if g.crashed != nil {
		panic(nestedPanic{g.crashed})
	}
	if g.status != gDone {
		w.unsupported("nested call to %s blocked", fi.name)
	}
	return g.retVal
}

type nestedPanic struct{ p *panicVal }

// ---- frames

func (w *Worker) pushFrame(g *Goroutine, fi *FnInfo, args []Value, free []Value, retReg int) *Frame {
	if len(g.frames) > w.E.opt.MaxDepth {
		if w.spec > 0 {
			panic(specAbort{"depth"})
		}
		w.end("overflow", "stack-overflow", "call depth exceeds "+fmt.Sprint(w.E.opt.MaxDepth)+" in "+fi.name)
	}
	fr := &Frame{fi: fi, env: make([]Value, fi.nregs), retReg: retReg, prev: -1}
	n := copy(fr.env, args)
	copy(fr.env[n:], free)
	fr.block = fi.blocks[0]
	g.frames = append(g.frames, fr)
	fi.hits++
	if fi.symHits == 0 {
		for _, a := range args {
			if t, ok := a.(*Term); ok && !t.isConst() {
				fi.symHits++
				break
			}
			if s, ok := a.(*Str); ok && (s.sym != nil || s.view != nil) {
				if w.hasSym(s) {
					fi.symHits++
					break
				}
			}
			if s, ok := a.(Slice); ok && s.len < 512 && w.hasSym(s) {
				fi.symHits++
				break
			}
		}
	} else {
		fi.symHits++
	}
	return fr
}

type ictl int

const (
	iDone   ictl = iota // result available
	iPushed             // a frame was pushed; its result becomes the call's result
	iBlock              // goroutine blocked; result delivered on wake-up
	iRetry              // re-execute the instruction later (goroutine blocked/yielded)
	iBody               // interpret the function's own body
)

type intrinsic func(w *Worker, g *Goroutine, fr *Frame, args []Value) (Value, ictl)

// callFn performs a call from fr; returns false if the instruction must be retried / goroutine switched.
func (w *Worker) callFn(g *Goroutine, fr *Frame, cl *Closure, args []Value, retReg int) {
	if cl == nil {
		w.goPanicStr(g, "nil-func", "invalid memory address or nil pointer dereference (nil func)")
		return
	}
	if cl.nat != nil {
		v := cl.nat(w, g, args)
		if retReg >= 0 {
			fr.env[retReg] = v
		}
		fr.pc++
		return
	}
	fi := w.fnInfo(cl.fn)
	if fi.intr != nil {
		fi.hits++
		depth := len(g.frames)
		v, ctl := fi.intr(w, g, fr, args)
		switch ctl {
		case iDone:
			if len(g.frames) < depth || w.unwound {
				// intrinsic raised a panic
				w.unwound = false
				return
			}
			if retReg >= 0 {
				fr.env[retReg] = v
			}
			fr.pc++
		case iPushed:
			g.frames[len(g.frames)-1].retReg = retReg
			fr.pc++
		case iBlock:
			fr.pc++
		case iRetry:
		case iBody:
			w.compileBody(fi)
			fr.pc++
			w.pushFrame(g, fi, args, cl.free, retReg)
		}
		return
	}
	if v, ok := w.tryMergeCall(fi, args, cl.free); ok {
		if retReg >= 0 {
			fr.env[retReg] = v
		}
		fr.pc++
		return
	}
	fr.pc++
	w.pushFrame(g, fi, args, cl.free, retReg)
}

// doReturn pops the top frame, delivering v.
func (w *Worker) doReturn(g *Goroutine, v Value) {
	fr := g.frames[len(g.frames)-1]
	g.frames = g.frames[:len(g.frames)-1]
	if fr.onReturn != nil {
		fr.onReturn(v)
	}
	if len(g.frames) == 0 {
		g.status = gDone
		g.retVal = v
		return
	}
	caller := g.frames[len(g.frames)-1]
	if fr.isDefer {
		w.continueDefers(g, caller)
		return
	}
	if fr.retReg >= 0 {
		caller.env[fr.retReg] = v
	}
}

// continueDefers runs the next deferred call of fr, or finishes.
func (w *Worker) continueDefers(g *Goroutine, fr *Frame) {
	for {
		if len(fr.defers) > 0 {
			d := fr.defers[len(fr.defers)-1]
			fr.defers = fr.defers[:len(fr.defers)-1]
			if d.fn == nil {
				w.goPanicStr(g, "nil-func", "nil deferred func")
				return
			}
			if d.fn.bi != nil {
				was := w.unwound
				w.unwound = false
				w.callBuiltin(g, fr, d.fn.bi, nil, d.args)
				if w.unwound {
					return
				}
				w.unwound = was
				continue
			}
			if d.fn.nat != nil {
				d.fn.nat(w, g, d.args)
				continue
			}
			fi := w.fnInfo(d.fn.fn)
			if fi.intr != nil {
				depth := len(g.frames)
				was := w.unwound
				w.unwound = false
				_, ctl := fi.intr(w, g, fr, d.args)
				if ctl == iBody {
					w.compileBody(fi)
					nf := w.pushFrame(g, fi, d.args, d.fn.free, -1)
					nf.isDefer = true
					return
				}
				if ctl == iPushed {
					g.frames[len(g.frames)-1].isDefer = true
					return
				}
				if w.unwound || len(g.frames) < depth {
					return
				}
				w.unwound = was
				if ctl != iDone {
					w.unsupported("blocking intrinsic in defer: %s", fi.name)
				}
				continue
			}
			nf := w.pushFrame(g, fi, d.args, d.fn.free, -1)
			nf.isDefer = true
			return
		}
		break
	}
	switch fr.running {
	case 1:
		fr.running = 0
		fr.pc++ // past RunDefers
	case 2:
		if fr.recovered {
			fr.running = 0
			fr.pan = nil
			fr.recovered = false
			if fr.fi.recover != nil {
				fr.block = fr.fi.recover
				fr.pc = 0
				fr.prev = -1
				return
			}
			w.doReturn(g, w.zeroResults(fr.fi.fn))
			return
		}
		// propagate
		p := fr.pan
		w.popForPanic(g, p)
	}
}

func (w *Worker) zeroResults(fn *ssa.Function) Value {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return w.zero(r.At(0).Type())
	}
	return w.zero(r)
}

func (w *Worker) popForPanic(g *Goroutine, p *panicVal) {
	fr := g.frames[len(g.frames)-1]
	g.frames = g.frames[:len(g.frames)-1]
	if len(g.frames) == 0 {
		if p.exit {
			g.status = gDone
			return
		}
		g.crashed = p
		g.status = gDone
		if !g.nested {
			w.end("panic", "panic", p.msg+" ["+p.where+"]")
		}
		return
	}
	caller := g.frames[len(g.frames)-1]
	if fr.isDefer && caller.running == 2 {
		// a deferred call panicked: replaces the current panic
		caller.recovered = false
	}
	w.raise(g, caller, p)
}

// raise starts (or continues) panicking in fr, which must be the top frame.
func (w *Worker) raise(g *Goroutine, fr *Frame, p *panicVal) {
	fr.pan = p
	fr.running = 2
	fr.recovered = false
	w.continueDefers(g, fr)
}

func (w *Worker) goPanic(g *Goroutine, p *panicVal) {
	if w.spec > 0 {
		panic(specAbort{"panic"})
	}
	if w.initDepth > 0 && g.nested {
		panic(endPath{"unsupported", "", "panic in init: " + p.msg})
	}
	p.where = w.where()
	w.unwound = true
	w.raise(g, g.frames[len(g.frames)-1], p)
}

func (w *Worker) goPanicStr(g *Goroutine, kind, msg string) {
	p := &panicVal{msg: "runtime error: " + msg}
	p.v = Iface{t: w.E.runtimeErrType, v: concStr("runtime error: " + msg)}
	w.goPanic(g, p)
}

// ---- main loop

// runG executes g until it blocks, finishes or a scheduling point switches.
func (w *Worker) runG(g *Goroutine) {
	for g.status == gRun && len(g.frames) > 0 {
		w.steps++
		if w.steps > w.E.opt.MaxSteps && w.initDepth == 0 {
			w.end("steps", "step-limit", "step limit reached in "+w.where())
		}
		w.stepTop(g)
		if w.yield {
			w.yield = false
			return
		}
	}
}

func (w *Worker) stepTop(g *Goroutine) {
	fr := g.frames[len(g.frames)-1]
	ins := &fr.block.instrs[fr.pc]
	w.exec(g, fr, ins)
	w.unwound = false
}

func (w *Worker) jump(fr *Frame, to *BlockInfo) {
	from := fr.block.idx
	if to.nphi > 0 {
		pi := -1
		for i, p := range to.preds {
			if p == from {
				pi = i
				break
			}
		}
		var tmp [8]Value
		vals := tmp[:0]
		for i := 0; i < to.nphi; i++ {
			vals = append(vals, w.get(fr, &to.instrs[i].ops[pi]))
		}
		for i := 0; i < to.nphi; i++ {
			fr.env[to.instrs[i].dst] = vals[i]
		}
	}
	fr.prev = from
	fr.block = to
	fr.pc = to.nphi
}

func (w *Worker) exec(g *Goroutine, fr *Frame, ins *Instr) {
	switch in := ins.in.(type) {
	case *ssa.BinOp:
		v, ok := w.binop(g, in.Op, in.X.Type(), in.Y.Type(), w.get(fr, &ins.ops[0]), w.get(fr, &ins.ops[1]))
		if !ok {
			return
		}
		fr.env[ins.dst] = v
		fr.pc++
	case *ssa.UnOp:
		w.unop(g, fr, ins, in)
	case *ssa.Phi:
		panic(engineErr{"phi executed"})
	case *ssa.Jump:
		w.jump(fr, fr.block.succs[0])
	case *ssa.If:
		c := w.get(fr, &ins.ops[0]).(*Term)
		if c.isConst() {
			if c.k == 1 {
				w.jump(fr, fr.block.succs[0])
			} else {
				w.jump(fr, fr.block.succs[1])
			}
			return
		}
		if v, ok := w.domDecide(c); ok {
			if v {
				w.jump(fr, fr.block.succs[0])
			} else {
				w.jump(fr, fr.block.succs[1])
			}
			return
		}
		if w.tryMergeIf(g, fr, c) || w.tryMergeExits(g, fr, c) {
			return
		}
		if w.branch(c) {
			w.jump(fr, fr.block.succs[0])
		} else {
			w.jump(fr, fr.block.succs[1])
		}
	case *ssa.Return:
		var v Value
		switch len(ins.ops) {
		case 0:
		case 1:
			v = w.get(fr, &ins.ops[0])
		default:
			t := make(Tuple, len(ins.ops))
			for i := range t {
				t[i] = w.get(fr, &ins.ops[i])
			}
			v = t
		}
		w.doReturn(g, v)
	case *ssa.Call:
		w.execCall(g, fr, ins, &in.Call)
	case *ssa.Go:
		cl, args := w.resolveCall(g, fr, ins, &in.Call)
		if cl == nil {
			return
		}
		fr.pc++
		w.spawn(cl, args)
	case *ssa.Defer:
		cl, args := w.resolveCall(g, fr, ins, &in.Call)
		if cl == nil {
			return
		}
		fr.defers = append(fr.defers, deferred{cl, args})
		fr.pc++
	case *ssa.RunDefers:
		if fr.running == 0 {
			fr.running = 1
		}
		w.continueDefers(g, fr)
	case *ssa.Panic:
		v := w.get(fr, &ins.ops[0])
		p := &panicVal{v: v, msg: "panic: " + w.panicText(v)}
		w.goPanic(g, p)
	case *ssa.Store:
		if w.spec > 0 {
			panic(specAbort{"store"})
		}
		w.store(g, w.get(fr, &ins.ops[0]), w.get(fr, &ins.ops[1]))
		if !w.unwound {
			fr.pc++
		}
	case *ssa.Alloc:
		p := new(Value)
		*p = w.zero(in.Type().Underlying().(*types.Pointer).Elem())
		fr.env[ins.dst] = p
		fr.pc++
	case *ssa.FieldAddr:
		p := w.get(fr, &ins.ops[0])
		cp, ok := p.(*Value)
		if !ok {
			w.unsupported("FieldAddr on %T", p)
		}
		if cp == nil {
			w.goPanicStr(g, "nil-deref", "invalid memory address or nil pointer dereference")
			return
		}
		st, ok := (*cp).(*StructV)
		if !ok {
			w.unsupported("FieldAddr: cell holds %T (%s)", *cp, in.X.Type())
		}
		fr.env[ins.dst] = &st.f[in.Field]
		fr.pc++
	case *ssa.Field:
		st := w.get(fr, &ins.ops[0]).(*StructV)
		fr.env[ins.dst] = st.f[in.Field]
		fr.pc++
	case *ssa.IndexAddr:
		w.indexAddr(g, fr, ins, in)
	case *ssa.Index:
		w.index(g, fr, ins, in)
	case *ssa.Lookup:
		w.lookup(g, fr, ins, in)
	case *ssa.Slice:
		w.sliceOp(g, fr, ins, in)
	case *ssa.Convert:
		v, ok := w.convert(g, in.X.Type(), in.Type(), w.get(fr, &ins.ops[0]))
		if !ok {
			return
		}
		fr.env[ins.dst] = v
		fr.pc++
	case *ssa.MultiConvert:
		v, ok := w.convert(g, in.X.Type(), in.Type(), w.get(fr, &ins.ops[0]))
		if !ok {
			return
		}
		fr.env[ins.dst] = v
		fr.pc++
	case *ssa.ChangeType:
		fr.env[ins.dst] = w.get(fr, &ins.ops[0])
		fr.pc++
	case *ssa.ChangeInterface:
		fr.env[ins.dst] = w.get(fr, &ins.ops[0])
		fr.pc++
	case *ssa.SliceToArrayPointer:
		s := w.get(fr, &ins.ops[0]).(Slice)
		n := int(in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if s.len < n {
			w.goPanicStr(g, "slice2arr", "cannot convert slice to array pointer: length too short")
			return
		}
		s.len, s.cap = n, n
		fr.env[ins.dst] = APtr{s}
		fr.pc++
	case *ssa.MakeInterface:
		fr.env[ins.dst] = Iface{t: w.E.canon(in.X.Type()), v: w.get(fr, &ins.ops[0])}
		fr.pc++
	case *ssa.MakeClosure:
		cl := &Closure{fn: in.Fn.(*ssa.Function)}
		for i := range in.Bindings {
			cl.free = append(cl.free, w.get(fr, &ins.ops[i+1]))
		}
		fr.env[ins.dst] = cl
		fr.pc++
	case *ssa.MakeSlice:
		w.makeSliceOp(g, fr, ins, in)
	case *ssa.MakeMap:
		mt := in.Type().Underlying().(*types.Map)
		fr.env[ins.dst] = &MapObj{idx: map[string]int{}, kt: mt.Key(), vt: mt.Elem()}
		fr.pc++
	case *ssa.MakeChan:
		n := w.get(fr, &ins.ops[0]).(*Term)
		if !n.isConst() {
			n = w.c.Const(64, w.concretize(n))
		}
		w.chanSeq++
		fr.env[ins.dst] = &ChanObj{id: w.chanSeq, cap: int(sext64(n.k, n.w)), zero: w.zero(in.Type().Underlying().(*types.Chan).Elem())}
		fr.pc++
	case *ssa.MapUpdate:
		m := w.get(fr, &ins.ops[0]).(*MapObj)
		if m == nil {
			w.goPanicStr(g, "nil-map", "assignment to entry in nil map")
			return
		}
		w.mapSet(m, w.get(fr, &ins.ops[1]), w.get(fr, &ins.ops[2]))
		fr.pc++
	case *ssa.Range:
		switch x := w.get(fr, &ins.ops[0]).(type) {
		case *MapObj:
			it := &iter{m: x, done: map[int]bool{}}
			it.perm = fr.fi.target && w.E.opt.MapPerm
			fr.env[ins.dst] = it
		case *Str:
			fr.env[ins.dst] = &iter{s: x}
		default:
			w.unsupported("range over %T", x)
		}
		fr.pc++
	case *ssa.Next:
		w.next(g, fr, ins, in)
	case *ssa.TypeAssert:
		w.typeAssert(g, fr, ins, in)
	case *ssa.Extract:
		fr.env[ins.dst] = w.get(fr, &ins.ops[0]).(Tuple)[in.Index]
		fr.pc++
	case *ssa.Send:
		w.chanSend(g, fr, w.get(fr, &ins.ops[0]).(*ChanObj), w.get(fr, &ins.ops[1]))
	case *ssa.Select:
		w.selectOp(g, fr, ins, in)
	default:
		w.unsupported("instruction %T %s", ins.in, ins.in)
	}
}

func (w *Worker) panicText(v Value) string {
	if i, ok := v.(Iface); ok {
		switch x := i.v.(type) {
		case *Str:
			if s, ok := w.strConc(x); ok {
				return s
			}
			return "<symbolic string>"
		case *Term:
			return x.String()
		}
		if i.t != nil {
			return i.t.String()
		}
	}
	return fmt.Sprintf("%T", v)
}

// ---- calls

func (w *Worker) resolveCall(g *Goroutine, fr *Frame, ins *Instr, cc *ssa.CallCommon) (*Closure, []Value) {
	if cc.IsInvoke() {
		recv := w.get(fr, &ins.ops[0])
		iv, ok := recv.(Iface)
		if !ok {
			w.unsupported("invoke on %T", recv)
		}
		if iv.t == nil {
			w.goPanicStr(g, "nil-deref", "invalid memory address or nil pointer dereference (nil interface)")
			return nil, nil
		}
		fn := w.lookupMethod(iv.t, cc.Method)
		if fn == nil {
			w.unsupported("method %s not found on %s", cc.Method.Name(), iv.t)
		}
		args := make([]Value, len(cc.Args)+1)
		args[0] = iv.v
		for i := 1; i < len(args); i++ {
			args[i] = w.get(fr, &ins.ops[i])
		}
		return &Closure{fn: fn}, args
	}
	cl, _ := w.get(fr, &ins.ops[0]).(*Closure)
	args := make([]Value, len(cc.Args)) // a Defer has one more operand
	for i := range args {
		args[i] = w.get(fr, &ins.ops[i+1])
	}
	if cl == nil {
		w.goPanicStr(g, "nil-func", "invalid memory address or nil pointer dereference (nil func)")
		return nil, nil
	}
	return cl, args
}

type methKey struct {
	t types.Type
	m *types.Func
}

func (w *Worker) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{t, m}
	if f, ok := w.methods[k]; ok {
		return f
	}
	var f *ssa.Function
	w.E.mu.Lock()
	sel := w.E.prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel != nil {
		f = w.E.prog.MethodValue(sel)
	}
	w.E.mu.Unlock()
	w.methods[k] = f
	return f
}

func (w *Worker) execCall(g *Goroutine, fr *Frame, ins *Instr, cc *ssa.CallCommon) {
	cl, args := w.resolveCall(g, fr, ins, cc)
	if cl == nil {
		return
	}
	if cl.bi != nil {
		v := w.callBuiltin(g, fr, cl.bi, cc, args)
		if w.unwound {
			return
		}
		if ins.dst >= 0 {
			fr.env[ins.dst] = v
		}
		fr.pc++
		return
	}
	// package initialisers of dependencies run lazily
	if cl.fn != nil && cl.fn.Synthetic == "package initializer" {
		fr.pc++
		return
	}
	w.callFn(g, fr, cl, args, ins.dst)
}

func (w *Worker) callBuiltin(g *Goroutine, fr *Frame, bi *ssa.Builtin, cc *ssa.CallCommon, args []Value) Value {
	switch bi.Name() {
	case "len":
		switch x := args[0].(type) {
		case *Str:
			return w.c.Int(w.strLen(x))
		case Slice:
			return w.c.Int(x.len)
		case *MapObj:
			if x == nil {
				return w.c.Int(0)
			}
			return w.c.Int(x.live)
		case *ChanObj:
			if x == nil {
				return w.c.Int(0)
			}
			return w.c.Int(len(x.buf))
		case *TermArr:
			return w.c.Int(x.n)
		case *CellArr:
			return w.c.Int(len(x.cells))
		case *Value:
			switch a := (*x).(type) {
			case *TermArr:
				return w.c.Int(a.n)
			case *CellArr:
				return w.c.Int(len(a.cells))
			}
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return w.c.Int(x.cap)
		case *ChanObj:
			if x == nil {
				return w.c.Int(0)
			}
			return w.c.Int(x.cap)
		case *TermArr:
			return w.c.Int(x.n)
		}
	case "append":
		return w.appendOp(args[0].(Slice), args[1], bi)
	case "copy":
		return w.copyOp(args[0].(Slice), args[1])
	case "delete":
		m := args[0].(*MapObj)
		if m != nil {
			w.mapDelete(m, args[1])
		}
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *MapObj:
			if x != nil {
				for i := range x.keys {
					if !x.del[i] {
						w.mapDelIdx(x, i)
					}
				}
			}
			return nil
		case Slice:
			if x.t != nil {
				for i := 0; i < x.len; i++ {
					w.tset(x.t, x.off+i, x.t.zero)
				}
				return nil
			}
			if x.len == 0 {
				return nil
			}
		}
	case "close":
		w.chanClose(g, args[0].(*ChanObj))
		return nil
	case "print", "println":
		return nil
	case "recover":
		return w.recoverOp(g, fr)
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			x, y := r.(*Term), a.(*Term)
			signed := w.ti(cc.Args[0].Type()).signed
			var lt *Term
			if signed {
				lt = w.c.Slt(x, y)
			} else {
				lt = w.c.Ult(x, y)
			}
			if bi.Name() == "max" {
				r = w.c.Ite(lt, y, x)
			} else {
				r = w.c.Ite(lt, x, y)
			}
		}
		return r
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Value); ok && p == nil {
			w.goPanicStr(g, "nil-deref", "invalid memory address or nil pointer dereference (value method on nil pointer)")
			return nil
		}
		return args[0]
	case "ssa:deferstack":
		return nil
	case "StringData":
		s := args[0].(*Str)
		if s.view != nil {
			return TPtr{a: s.view.t, i: s.view.off}
		}
		sl := w.sliceFromTerms(w.strTerms(s), 8)
		return TPtr{a: sl.t, i: 0}
	case "SliceData":
		s := args[0].(Slice)
		if s.t != nil {
			return TPtr{a: s.t, i: s.off}
		}
		if s.c == nil {
			return nilPtr
		}
		if s.cap == 0 {
			return nilPtr
		}
		return APtr{s}
	case "String":
		n := args[1].(*Term)
		if !n.isConst() {
			w.unsupported("unsafe.String symbolic length")
		}
		if n.k == 0 {
			return emptyStr
		}
		p, ok := args[0].(TPtr)
		if !ok {
			w.unsupported("unsafe.String on %T", args[0])
		}
		return &Str{view: &Slice{t: p.a, off: p.i, len: int(n.k), cap: int(n.k)}}
	case "Slice":
		n := args[1].(*Term)
		p, ok := args[0].(TPtr)
		if ok && n.isConst() {
			return Slice{t: p.a, off: p.i, len: int(n.k), cap: int(n.k)}
		}
	case "Add":
		if p, ok := args[0].(UPtr); ok {
			if tp, ok := p.p.(TPtr); ok {
				n := args[1].(*Term)
				if n.isConst() && tp.a.w == 8 {
					return UPtr{TPtr{a: tp.a, i: tp.i + int(int64(n.k))}}
				}
			}
		}
	}
	w.unsupported("builtin %s(%T)", bi.Name(), first(args))
	return nil
}

func first(a []Value) Value {
	if len(a) > 0 {
		return a[0]
	}
	return nil
}

func (w *Worker) recoverOp(g *Goroutine, fr *Frame) Value {
	// fr must be a deferred frame directly called by a panicking frame
	if !fr.isDefer || len(g.frames) < 2 {
		return Iface{}
	}
	caller := g.frames[len(g.frames)-2]
	if caller.running == 2 && !caller.recovered && caller.pan != nil && !caller.pan.exit {
		caller.recovered = true
		return caller.pan.v
	}
	return Iface{}
}

func growCap(oldCap, need int) int {
	nc := oldCap
	dbl := nc + nc
	if need > dbl {
		nc = need
	} else if oldCap < 256 {
		nc = dbl
	} else {
		for nc < need {
			nc += (nc + 3*256) / 4
		}
	}
	// approximate size-class rounding for small byte slices
	if nc < 8 {
		nc = 8
	}
	if nc > 8 && nc < 1024 {
		nc = (nc + 15) &^ 15
	}
	return nc
}

func (w *Worker) appendOp(s Slice, add Value, bi *ssa.Builtin) Value {
	switch x := add.(type) {
	case *Str:
		n := w.strLen(x)
		if n == 0 {
			return s
		}
		ts := w.strTerms(x)
		d := w.growT(s, n, 8)
		for i, t := range ts {
			w.tset(d.t, d.off+s.len+i, t)
		}
		return d
	case Slice:
		if x.len == 0 {
			return s
		}
		if x.t != nil {
			ts := w.sliceTerms(x)
			d := w.growT(s, x.len, x.t.w)
			for i, t := range ts {
				w.tset(d.t, d.off+s.len+i, t)
			}
			return d
		}
		elem := x.c
		src := make([]Value, x.len)
		for i := range src {
			src[i] = w.copyVal(elem.cells[x.off+i])
		}
		d := s
		if s.c == nil || s.len+x.len > s.cap {
			nc := growCap(s.cap, s.len+x.len)
			if nc > s.len+x.len && s.cap == 0 {
				nc = s.len + x.len // exact for first allocation of wide elements
			}
			a := &CellArr{cells: make([]Value, nc)}
			for i := 0; i < s.len; i++ {
				a.cells[i] = w.copyVal(s.c.cells[s.off+i])
			}
			for i := s.len; i < nc; i++ {
				a.cells[i] = w.zeroLike(src[0])
			}
			d = Slice{c: a, len: s.len, cap: nc}
		}
		for i, v := range src {
			w.storeCell(&d.c.cells[d.off+s.len+i], v)
		}
		d.len = s.len + x.len
		return d
	}
	w.unsupported("append of %T", add)
	return nil
}

func (w *Worker) zeroLike(v Value) Value {
	switch x := v.(type) {
	case *Term:
		return w.c.Const(x.w, 0)
	case *Str:
		return emptyStr
	case *StructV:
		n := &StructV{f: make([]Value, len(x.f))}
		for i := range x.f {
			n.f[i] = w.zeroLike(x.f[i])
		}
		return n
	case *TermArr:
		return newTermArr(w.c, x.n, x.w)
	case *CellArr:
		n := &CellArr{cells: make([]Value, len(x.cells))}
		for i := range x.cells {
			n.cells[i] = w.zeroLike(x.cells[i])
		}
		return n
	case Slice:
		return Slice{}
	case *Value, TPtr, APtr:
		return nilPtr
	case Iface:
		return Iface{}
	case *MapObj:
		return (*MapObj)(nil)
	case *ChanObj:
		return (*ChanObj)(nil)
	case *Closure:
		return (*Closure)(nil)
	case FloatV:
		return FloatV{w: x.w}
	case UPtr:
		return UPtr{nilPtr}
	}
	panic(engineErr{fmt.Sprintf("zeroLike %T", v)})
}

// growT returns s extended by n elements (contents of the new part unspecified).
func (w *Worker) growT(s Slice, n int, width uint8) Slice {
	if s.t != nil && s.len+n <= s.cap {
		s.len += n
		return s
	}
	nc := growCap(s.cap, s.len+n)
	a := newTermArr(w.c, nc, width)
	for i := 0; i < s.len; i++ {
		if t := s.t.get(s.off + i); t != a.zero {
			pi := i >> pageBits
			a.page(pi)[i&(pageSize-1)] = t
		}
	}
	return Slice{t: a, len: s.len + n, cap: nc}
}

func (w *Worker) copyOp(d Slice, src Value) Value {
	switch x := src.(type) {
	case *Str:
		n := w.strLen(x)
		if d.len < n {
			n = d.len
		}
		ts := w.strTerms(x)
		for i := 0; i < n; i++ {
			w.tset(d.t, d.off+i, ts[i])
		}
		return w.c.Int(n)
	case Slice:
		n := x.len
		if d.len < n {
			n = d.len
		}
		if n == 0 {
			return w.c.Int(0)
		}
		if d.t != nil {
			w.bulkCopy(d.t, d.off, x.t, x.off, n)
			return w.c.Int(n)
		}
		tmp := make([]Value, n)
		for i := range tmp {
			tmp[i] = w.copyVal(x.c.cells[x.off+i])
		}
		for i := range tmp {
			w.storeCell(&d.c.cells[d.off+i], tmp[i])
		}
		return w.c.Int(n)
	}
	w.unsupported("copy from %T", src)
	return nil
}

// bulkCopy copies n scalars, skipping pages that are zero on both sides.
func (w *Worker) bulkCopy(d *TermArr, do int, s *TermArr, so int, n int) {
	if d == s || n <= 256 {
		tmp := make([]*Term, n)
		for i := range tmp {
			tmp[i] = s.get(so + i)
		}
		for i := range tmp {
			w.tset(d, do+i, tmp[i])
		}
		return
	}
	for i := 0; i < n; {
		sp := s.pages[(so+i)>>pageBits]
		// elements until the end of the source page
		k := pageSize - (so+i)&(pageSize-1)
		if k > n-i {
			k = n - i
		}
		if sp == nil {
			// zero source: only clear allocated destination pages
			for j := 0; j < k; {
				dp := d.pages[(do+i+j)>>pageBits]
				m := pageSize - (do+i+j)&(pageSize-1)
				if m > k-j {
					m = k - j
				}
				if dp != nil {
					for q := 0; q < m; q++ {
						w.tset(d, do+i+j+q, d.zero)
					}
				}
				j += m
			}
		} else {
			for j := 0; j < k; j++ {
				t := s.get(so + i + j)
				if d.get(do+i+j) != t {
					w.tset(d, do+i+j, t)
				}
			}
		}
		i += k
	}
}

// ---- memory access

func (w *Worker) load(g *Goroutine, p Value, t types.Type) (Value, bool) {
	switch x := p.(type) {
	case *Value:
		if x == nil {
			w.goPanicStr(g, "nil-deref", "invalid memory address or nil pointer dereference")
			return nil, false
		}
		v := *x
		switch y := v.(type) {
		case *StructV, *TermArr, *CellArr:
			return w.copyVal(y), true
		case Slice:
			// *(*string)(unsafe.Pointer(&slice))
			if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				if y.len == 0 {
					return emptyStr, true
				}
				c := y
				return &Str{view: &c}, true
			}
		case *Str:
			if _, ok := t.Underlying().(*types.Slice); ok {
				s := w.sliceFromTerms(w.strTerms(y), 8)
				return s, true
			}
		}
		return v, true
	case TPtr:
		if x.sidx == nil {
			return x.a.get(x.i), true
		}
		return w.selectArr(func(i int) *Term { return x.a.get(x.i + i) }, x.a.n-x.i, x.sidx), true
	case APtr:
		if x.s.t != nil {
			a := newTermArr(w.c, x.s.len, x.s.t.w)
			for i := 0; i < x.s.len; i++ {
				pi := i >> pageBits
				a.page(pi)[i&(pageSize-1)] = x.s.t.get(x.s.off + i)
			}
			return a, true
		}
		a := &CellArr{}
		for i := 0; i < x.s.len; i++ {
			a.cells = append(a.cells, w.copyVal(x.s.c.cells[x.s.off+i]))
		}
		return a, true
	}
	w.unsupported("load through %T", p)
	return nil, false
}

// selectArr builds an ite tree for a symbolic in-range index.
func (w *Worker) selectArr(at func(int) *Term, n int, idx *Term) *Term {
	mx := maxU(idx, 0)
	if mx < uint64(n) {
		n = int(mx) + 1
	}
	if n > 1024 {
		k := w.concretize(idx)
		return at(int(k))
	}
	if n == 0 {
		return at(0)
	}
	var build func(lo, hi int) *Term
	build = func(lo, hi int) *Term {
		// all equal?
		f := at(lo)
		same := true
		for i := lo + 1; i < hi; i++ {
			if at(i) != f {
				same = false
				break
			}
		}
		if same {
			return f
		}
		mid := (lo + hi) / 2
		return w.c.Ite(w.c.Ult(idx, w.c.Const(idx.w, uint64(mid))), build(lo, mid), build(mid, hi))
	}
	return build(0, n)
}

func (w *Worker) store(g *Goroutine, p Value, v Value) {
	switch x := p.(type) {
	case *Value:
		if x == nil {
			w.goPanicStr(g, "nil-deref", "invalid memory address or nil pointer dereference")
			return
		}
		w.storeCell(x, v)
		return
	case TPtr:
		if x.sidx != nil {
			t := v.(*Term)
			n := x.a.n - x.i
			if mx := maxU(x.sidx, 0); mx < uint64(n) {
				n = int(mx) + 1
			}
			if n <= 300 {
				for i := 0; i < n; i++ {
					old := x.a.get(x.i + i)
					w.tset(x.a, x.i+i, w.c.Ite(w.c.Eq(x.sidx, w.c.Const(x.sidx.w, uint64(i))), t, old))
				}
				return
			}
			k := w.concretize(x.sidx)
			w.tset(x.a, x.i+int(k), t)
			return
		}
		w.tset(x.a, x.i, v.(*Term))
		return
	case APtr:
		switch a := v.(type) {
		case *TermArr:
			for i := 0; i < a.n; i++ {
				w.tset(x.s.t, x.s.off+i, a.get(i))
			}
			return
		case *CellArr:
			for i := range a.cells {
				w.storeCell(&x.s.c.cells[x.s.off+i], a.cells[i])
			}
			return
		}
	}
	w.unsupported("store through %T", p)
}

func (w *Worker) unop(g *Goroutine, fr *Frame, ins *Instr, in *ssa.UnOp) {
	x := w.get(fr, &ins.ops[0])
	switch in.Op {
	case token.MUL:
		v, ok := w.load(g, x, in.Type())
		if !ok {
			return
		}
		fr.env[ins.dst] = v
		fr.pc++
	case token.NOT:
		fr.env[ins.dst] = w.c.Not(x.(*Term))
		fr.pc++
	case token.SUB:
		if f, ok := x.(FloatV); ok {
			if f.sym != nil {
				f.sym = w.c.Neg(f.sym)
			}
			f.f = -f.f
			fr.env[ins.dst] = f
		} else {
			fr.env[ins.dst] = w.c.Neg(x.(*Term))
		}
		fr.pc++
	case token.XOR:
		fr.env[ins.dst] = w.c.Bnot(x.(*Term))
		fr.pc++
	case token.ARROW:
		w.chanRecv(g, fr, ins.dst, x.(*ChanObj), in.CommaOk)
	default:
		w.unsupported("unop %s", in.Op)
	}
}

// boundsIdx checks 0 <= idx < n, forking; returns the 64-bit index term.
func (w *Worker) idxTerm(v Value, t types.Type) *Term {
	x := v.(*Term)
	if x.w == 64 {
		return x
	}
	if w.ti(t).signed {
		return w.c.Sext(x, 64)
	}
	return w.c.Zext(x, 64)
}

func (w *Worker) checkIdx(g *Goroutine, idx *Term, n int, what string) bool {
	in := w.c.Ult(idx, w.c.Int(n))
	if in.isTrue() {
		return true
	}
	if in.isFalse() || !w.branch(in) {
		is := "symbolic"
		if idx.isConst() {
			is = fmt.Sprint(int64(idx.k))
		}
		w.goPanicStr(g, "index", fmt.Sprintf("index out of range [%s] with length %d", is, n))
		return false
	}
	return true
}

func (w *Worker) indexAddr(g *Goroutine, fr *Frame, ins *Instr, in *ssa.IndexAddr) {
	x := w.get(fr, &ins.ops[0])
	idx := w.idxTerm(w.get(fr, &ins.ops[1]), in.Index.Type())
	var t *TermArr
	var c *CellArr
	off, n := 0, 0
	switch a := x.(type) {
	case Slice:
		t, c, off, n = a.t, a.c, a.off, a.len
	case *Value:
		if a == nil {
			w.goPanicStr(g, "nil-deref", "invalid memory address or nil pointer dereference")
			return
		}
		switch y := (*a).(type) {
		case *TermArr:
			t, n = y, y.n
		case *CellArr:
			c, n = y, len(y.cells)
		}
	case APtr:
		t, c, off, n = a.s.t, a.s.c, a.s.off, a.s.len
	default:
		w.unsupported("IndexAddr on %T", x)
	}
	if !w.checkIdx(g, idx, n, "") {
		return
	}
	if t != nil {
		if idx.isConst() {
			fr.env[ins.dst] = TPtr{a: t, i: off + int(idx.k)}
		} else {
			fr.env[ins.dst] = TPtr{a: t, i: off, sidx: idx}
		}
	} else {
		i := int(idx.k)
		if !idx.isConst() {
			i = int(w.concretize(idx))
		}
		fr.env[ins.dst] = &c.cells[off+i]
	}
	fr.pc++
}

func (w *Worker) index(g *Goroutine, fr *Frame, ins *Instr, in *ssa.Index) {
	x := w.get(fr, &ins.ops[0])
	idx := w.idxTerm(w.get(fr, &ins.ops[1]), in.Index.Type())
	switch a := x.(type) {
	case *Str:
		v, ok := w.strIndex(g, a, idx)
		if !ok {
			return
		}
		fr.env[ins.dst] = v
	case *TermArr:
		if !w.checkIdx(g, idx, a.n, "") {
			return
		}
		if idx.isConst() {
			fr.env[ins.dst] = a.get(int(idx.k))
		} else {
			fr.env[ins.dst] = w.selectArr(a.get, a.n, idx)
		}
	case *CellArr:
		if !w.checkIdx(g, idx, len(a.cells), "") {
			return
		}
		i := int(idx.k)
		if !idx.isConst() {
			i = int(w.concretize(idx))
		}
		fr.env[ins.dst] = a.cells[i]
	default:
		w.unsupported("Index on %T", x)
	}
	fr.pc++
}

func (w *Worker) strIndex(g *Goroutine, a *Str, idx *Term) (Value, bool) {
	n := w.strLen(a)
	if !w.checkIdx(g, idx, n, "") {
		return nil, false
	}
	if idx.isConst() {
		return w.strAt(a, int(idx.k)), true
	}
	return w.selectArr(func(i int) *Term { return w.strAt(a, i) }, n, idx), true
}

func (w *Worker) lookup(g *Goroutine, fr *Frame, ins *Instr, in *ssa.Lookup) {
	x := w.get(fr, &ins.ops[0])
	if s, ok := x.(*Str); ok {
		idx := w.idxTerm(w.get(fr, &ins.ops[1]), in.Index.Type())
		v, ok := w.strIndex(g, s, idx)
		if !ok {
			return
		}
		fr.env[ins.dst] = v
		fr.pc++
		return
	}
	m := x.(*MapObj)
	var vp *Value
	if m != nil {
		vp = w.mapGet(m, w.get(fr, &ins.ops[1]))
	}
	var v Value
	if vp != nil {
		v = w.copyVal(*vp)
	} else {
		v = w.zero(in.X.Type().Underlying().(*types.Map).Elem())
	}
	if in.CommaOk {
		fr.env[ins.dst] = Tuple{v, w.c.Bool(vp != nil)}
	} else {
		fr.env[ins.dst] = v
	}
	fr.pc++
}

func (w *Worker) sliceOp(g *Goroutine, fr *Frame, ins *Instr, in *ssa.Slice) {
	x := w.get(fr, &ins.ops[0])
	bound := func(i int) *Term {
		if ins.ops[i].non {
			return nil
		}
		var v ssa.Value
		switch i {
		case 1:
			v = in.Low
		case 2:
			v = in.High
		case 3:
			v = in.Max
		}
		return w.idxTerm(w.get(fr, &ins.ops[i]), v.Type())
	}
	lo, hi, mx := bound(1), bound(2), bound(3)
	var base Slice
	var str *Str
	capacity, length := 0, 0
	switch a := x.(type) {
	case *Str:
		str = a
		length = w.strLen(a)
		capacity = length
	case Slice:
		base = a
		length, capacity = a.len, a.cap
	case *Value:
		if a == nil {
			w.goPanicStr(g, "nil-deref", "invalid memory address or nil pointer dereference")
			return
		}
		switch y := (*a).(type) {
		case *TermArr:
			base = Slice{t: y, len: y.n, cap: y.n}
		case *CellArr:
			base = Slice{c: y, len: len(y.cells), cap: len(y.cells)}
		default:
			w.unsupported("slice of pointer to %T", y)
		}
		length, capacity = base.len, base.cap
	case APtr:
		base = a.s
		length, capacity = base.len, base.cap
	default:
		w.unsupported("slice of %T", x)
	}
	if lo == nil {
		lo = w.c.Int(0)
	}
	if hi == nil {
		hi = w.c.Int(length)
	}
	mcap := w.c.Int(capacity)
	okc := w.c.True
	if mx != nil {
		okc = w.c.And(okc, w.c.Ule(mx, mcap))
		okc = w.c.And(okc, w.c.Ule(hi, mx))
	} else {
		okc = w.c.And(okc, w.c.Ule(hi, mcap))
	}
	okc = w.c.And(okc, w.c.Ule(lo, hi))
	if !okc.isTrue() {
		if okc.isFalse() || !w.branch(okc) {
			w.goPanicStr(g, "slice", fmt.Sprintf("slice bounds out of range [%s:%s] with capacity %d", shortTerm(lo), shortTerm(hi), capacity))
			return
		}
	}
	l, h := w.concInt(lo), w.concInt(hi)
	if str != nil {
		fr.env[ins.dst] = w.substr(str, l, h)
	} else {
		c := capacity
		if mx != nil {
			c = w.concInt(mx)
		}
		r := base
		r.off += l
		r.len = h - l
		r.cap = c - l
		if base.isNil() {
			r = Slice{}
		}
		fr.env[ins.dst] = r
	}
	fr.pc++
}

func shortTerm(t *Term) string {
	if t.isConst() {
		return fmt.Sprint(sext64(t.k, t.w))
	}
	return "sym"
}

func (w *Worker) concInt(t *Term) int {
	if t.isConst() {
		return int(sext64(t.k, t.w))
	}
	return int(sext64(w.concretize(t), t.w))
}

func (w *Worker) makeSliceOp(g *Goroutine, fr *Frame, ins *Instr, in *ssa.MakeSlice) {
	n := w.idxTerm(w.get(fr, &ins.ops[0]), in.Len.Type())
	c := w.idxTerm(w.get(fr, &ins.ops[1]), in.Cap.Type())
	lim := w.c.Const(64, 1<<40)
	bad := w.c.Or(w.c.Not(w.c.Ult(n, lim)), w.c.Or(w.c.Not(w.c.Ult(c, lim)), w.c.Ult(c, n)))
	if !bad.isFalse() {
		if bad.isTrue() || w.branch(bad) {
			w.goPanicStr(g, "makeslice", "makeslice: len or cap out of range")
			return
		}
	}
	ln := w.concInt(n)
	cp := w.concInt(c)
	if cp > 1<<26 {
		w.end("bound", "huge-alloc", fmt.Sprintf("allocation of %d elements at %s", cp, w.where()))
	}
	fr.env[ins.dst] = w.makeSlice(in.Type().Underlying().(*types.Slice).Elem(), ln, cp)
	fr.pc++
}

// ---- conversions

func (w *Worker) convert(g *Goroutine, from, to types.Type, v Value) (Value, bool) {
	fu, tu := from.Underlying(), to.Underlying()
	fti, tti := w.ti(from), w.ti(to)
	if fti.scalar && tti.scalar {
		x := v.(*Term)
		if fti.w == tti.w {
			return x, true
		}
		if tti.w < fti.w {
			return w.c.Trunc(x, tti.w), true
		}
		if fti.signed {
			return w.c.Sext(x, tti.w), true
		}
		return w.c.Zext(x, tti.w), true
	}
	tb, _ := tu.(*types.Basic)
	fb, _ := fu.(*types.Basic)
	if tb != nil && tb.Info()&types.IsString != 0 {
		switch x := v.(type) {
		case *Str:
			return x, true
		case Slice:
			if x.isNil() || x.len == 0 {
				return emptyStr, true
			}
			if x.t != nil && x.t.w == 8 {
				return w.mkStr(w.sliceTerms(x)), true
			}
			if x.t != nil && x.t.w == 32 { // []rune
				var out []*Term
				for i := 0; i < x.len; i++ {
					out = append(out, w.encodeRune(x.t.get(x.off+i))...)
				}
				return w.mkStr(out), true
			}
		case *Term: // rune / integer
			r := x
			if r.w < 32 {
				r = w.c.Zext(r, 32)
			}
			if r.w > 32 {
				big := w.c.Not(w.c.Ule(r, w.c.Const(64, 0x10ffff)))
				if w.branchT(big) {
					return concStr("\uFFFD"), true
				}
				r = w.c.Trunc(r, 32)
			}
			return w.mkStr(w.encodeRune(r)), true
		}
	}
	if fb != nil && fb.Info()&types.IsString != 0 {
		if st, ok := tu.(*types.Slice); ok {
			s := v.(*Str)
			if w.ti(st.Elem()).w == 8 {
				return w.sliceFromTerms(w.strTerms(s), 8), true
			}
			// []rune
			var rs []*Term
			i := 0
			for i < w.strLen(s) {
				r, n := w.decodeRune(s, i)
				rs = append(rs, r)
				i += n
			}
			return w.sliceFromTerms(rs, 32), true
		}
	}
	if tb != nil && tb.Info()&types.IsFloat != 0 {
		wd := uint8(64)
		if tb.Kind() == types.Float32 {
			wd = 32
		}
		switch x := v.(type) {
		case FloatV:
			if wd == 32 {
				x.f = float64(float32(x.f))
			}
			x.w = wd
			return x, true
		case *Term:
			var s *Term
			if fti.signed {
				s = w.c.Sext(x, 64)
			} else {
				s = w.c.Zext(x, 64)
			}
			if s.isConst() {
				f := float64(int64(s.k))
				if !fti.signed {
					f = float64(s.k)
				}
				if wd == 32 {
					f = float64(float32(f))
				}
				return FloatV{f: f, w: wd}, true
			}
			return FloatV{sym: s, w: wd}, true
		}
	}
	if fb != nil && fb.Info()&types.IsFloat != 0 && tti.scalar {
		f := v.(FloatV)
		if f.sym != nil {
			if tti.w < 64 {
				return w.c.Trunc(f.sym, tti.w), true
			}
			return f.sym, true
		}
		if tti.signed {
			return w.c.Const(tti.w, uint64(int64(f.f))), true
		}
		if f.f >= 9.2e18 {
			return w.c.Const(tti.w, uint64(f.f)), true
		}
		return w.c.Const(tti.w, uint64(int64(f.f))), true
	}
	if tb != nil && tb.Kind() == types.UnsafePointer {
		if u, ok := v.(UPtr); ok {
			return u, true
		}
		return UPtr{v}, true
	}
	if fb != nil && fb.Kind() == types.UnsafePointer {
		if u, ok := v.(UPtr); ok {
			return u.p, true
		}
	}
	switch tu.(type) {
	case *types.Pointer, *types.Slice, *types.Signature, *types.Chan, *types.Map, *types.Interface:
		return v, true
	}
	w.unsupported("convert %s to %s (%T)", from, to, v)
	return nil, false
}

// branchT is branch on a possibly constant term.
func (w *Worker) branchT(t *Term) bool {
	if t.isConst() {
		return t.k == 1
	}
	return w.branch(t)
}

func (w *Worker) encodeRune(r *Term) []*Term {
	c := w.c
	k := func(v uint64) *Term { return c.Const(32, v) }
	b := func(t *Term) *Term { return c.Trunc(t, 8) }
	if r.isConst() {
		var buf [4]byte
		n := utf8.EncodeRune(buf[:], rune(int32(r.k)))
		var out []*Term
		for i := 0; i < n; i++ {
			out = append(out, c.Const(8, uint64(buf[i])))
		}
		return out
	}
	if w.branchT(c.Ult(r, k(0x80))) {
		return []*Term{b(r)}
	}
	sh := func(n uint64) *Term { return c.Bin(OLshr, r, k(n)) }
	lo6 := func(t *Term) *Term { return b(c.Bin(OBor, c.Bin(OBand, t, k(0x3f)), k(0x80))) }
	if w.branchT(c.Ult(r, k(0x800))) {
		return []*Term{b(c.Bin(OBor, sh(6), k(0xc0))), lo6(r)}
	}
	bad := c.Or(c.Not(c.Ult(r, k(0x110000))), c.And(c.Not(c.Ult(r, k(0xd800))), c.Ult(r, k(0xe000))))
	if w.branchT(bad) {
		return []*Term{c.Const(8, 0xef), c.Const(8, 0xbf), c.Const(8, 0xbd)}
	}
	if w.branchT(c.Ult(r, k(0x10000))) {
		return []*Term{b(c.Bin(OBor, sh(12), k(0xe0))), lo6(sh(6)), lo6(r)}
	}
	return []*Term{b(c.Bin(OBor, sh(18), k(0xf0))), lo6(sh(12)), lo6(sh(6)), lo6(r)}
}

// decodeRune decodes the rune at s[i:], forking on its class.
func (w *Worker) decodeRune(s *Str, i int) (*Term, int) {
	c := w.c
	b0 := w.strAt(s, i)
	if w.branchT(c.Ult(b0, c.Const(8, 0x80))) {
		return c.Zext(b0, 32), 1
	}
	fn := w.E.lookupFn("unicode/utf8", "DecodeRuneInString")
	r := w.runNested(w.fnInfo(fn), []Value{w.substr(s, i, w.strLen(s))}, nil).(Tuple)
	n := w.concInt(r[1].(*Term))
	return r[0].(*Term), n
}

func (w *Worker) next(g *Goroutine, fr *Frame, ins *Instr, in *ssa.Next) {
	it := fr.env[ins.ops[0].reg].(*iter)
	if in.IsString {
		if it.si >= w.strLen(it.s) {
			fr.env[ins.dst] = Tuple{w.c.False, w.c.Int(0), w.c.Const(32, 0)}
			fr.pc++
			return
		}
		i := it.si
		r, n := w.decodeRune(it.s, i)
		it.si += n
		w.undo(func() { it.si = i })
		fr.env[ins.dst] = Tuple{w.c.True, w.c.Int(i), r}
		fr.pc++
		return
	}
	m := it.m
	mt := in.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
	var cand []int
	if m != nil {
		for i := range m.keys {
			if !m.del[i] && !it.done[i] {
				cand = append(cand, i)
				if !it.perm {
					break
				}
			}
		}
	}
	if len(cand) == 0 {
		fr.env[ins.dst] = Tuple{w.c.False, w.zero(mt.Key()), w.zero(mt.Elem())}
		fr.pc++
		return
	}
	k := 0
	if len(cand) > 1 && len(cand) <= 4 {
		k = w.choose("maporder", len(cand))
	}
	i := cand[k]
	it.done[i] = true
	fr.env[ins.dst] = Tuple{w.c.True, w.copyVal(m.keys[i]), w.copyVal(*m.vals[i])}
	fr.pc++
}

func (w *Worker) typeAssert(g *Goroutine, fr *Frame, ins *Instr, in *ssa.TypeAssert) {
	iv, isI := w.get(fr, &ins.ops[0]).(Iface)
	if !isI {
		w.unsupported("type assert on %T", w.get(fr, &ins.ops[0]))
	}
	ok := false
	var v Value
	if iv.t != nil {
		if it, isIf := in.AssertedType.Underlying().(*types.Interface); isIf {
			ok = w.implements(iv.t, it)
			v = iv
		} else {
			ok = w.E.canon(in.AssertedType) == iv.t
			v = iv.v
		}
	}
	if !ok {
		v = w.zero(in.AssertedType)
	}
	if in.CommaOk {
		fr.env[ins.dst] = Tuple{v, w.c.Bool(ok)}
		fr.pc++
		return
	}
	if !ok {
		w.goPanicStr(g, "type-assert", "interface conversion: wrong dynamic type for "+in.AssertedType.String())
		return
	}
	fr.env[ins.dst] = v
	fr.pc++
}

type implKey struct {
	t types.Type
	i *types.Interface
}

func (w *Worker) implements(t types.Type, i *types.Interface) bool {
	k := implKey{t, i}
	if r, ok := w.impl[k]; ok {
		return r
	}
	w.E.mu.Lock()
	r := types.Implements(t, i)
	w.E.mu.Unlock()
	w.impl[k] = r
	return r
}

// ---- operators

func (w *Worker) binop(g *Goroutine, op token.Token, xt, yt types.Type, x, y Value) (Value, bool) {
	c := w.c
	switch op {
	case token.EQL:
		return w.eqVal(x, y), true
	case token.NEQ:
		return c.Not(w.eqVal(x, y)), true
	}
	switch a := x.(type) {
	case *Str:
		b := y.(*Str)
		switch op {
		case token.ADD:
			if w.strLen(a) == 0 {
				return b, true
			}
			if w.strLen(b) == 0 {
				return a, true
			}
			if a.sym == nil && a.view == nil && b.sym == nil && b.view == nil {
				return concStr(a.s + b.s), true
			}
			ts := append(append([]*Term(nil), w.strTerms(a)...), w.strTerms(b)...)
			return w.mkStr(ts), true
		case token.LSS:
			return w.strLess(a, b), true
		case token.GTR:
			return w.strLess(b, a), true
		case token.LEQ:
			return c.Not(w.strLess(b, a)), true
		case token.GEQ:
			return c.Not(w.strLess(a, b)), true
		}
	case FloatV:
		b := y.(FloatV)
		if a.sym == nil && b.sym == nil {
			switch op {
			case token.ADD:
				return fl(a.f+b.f, a.w), true
			case token.SUB:
				return fl(a.f-b.f, a.w), true
			case token.MUL:
				return fl(a.f*b.f, a.w), true
			case token.QUO:
				return fl(a.f/b.f, a.w), true
			case token.LSS:
				return c.Bool(a.f < b.f), true
			case token.LEQ:
				return c.Bool(a.f <= b.f), true
			case token.GTR:
				return c.Bool(a.f > b.f), true
			case token.GEQ:
				return c.Bool(a.f >= b.f), true
			}
		}
		if op == token.ADD || op == token.SUB {
			if b.sym == nil && b.f == 0 {
				return a, true
			}
			if op == token.ADD && a.sym == nil && a.f == 0 {
				return b, true
			}
		}
		w.unsupported("symbolic float operation %s", op)
	case *Term:
		b := y.(*Term)
		ti := w.ti(xt)
		switch op {
		case token.SHL, token.SHR:
			return w.shift(g, op, a, b, ti.signed, w.ti(yt).signed)
		}
		if a.w == 0 {
			switch op {
			case token.AND, token.LAND:
				return c.And(a, b), true
			case token.OR, token.LOR:
				return c.Or(a, b), true
			case token.XOR:
				return c.Not(c.Eq(a, b)), true
			}
		}
		switch op {
		case token.ADD:
			return c.Bin(OAdd, a, b), true
		case token.SUB:
			return c.Bin(OSub, a, b), true
		case token.MUL:
			return c.Bin(OMul, a, b), true
		case token.QUO, token.REM:
			z := c.Eq(b, c.Const(b.w, 0))
			if !z.isFalse() {
				if z.isTrue() || w.branch(z) {
					w.goPanicStr(g, "div", "integer divide by zero")
					return nil, false
				}
			}
			o := OUdiv
			switch {
			case op == token.QUO && ti.signed:
				o = OSdiv
			case op == token.REM && ti.signed:
				o = OSrem
			case op == token.REM:
				o = OUrem
			}
			return c.Bin(o, a, b), true
		case token.AND:
			return c.Bin(OBand, a, b), true
		case token.OR:
			return c.Bin(OBor, a, b), true
		case token.XOR:
			return c.Bin(OBxor, a, b), true
		case token.AND_NOT:
			return c.Bin(OBand, a, c.Bnot(b)), true
		case token.LSS:
			if ti.signed {
				return c.Slt(a, b), true
			}
			return c.Ult(a, b), true
		case token.LEQ:
			if ti.signed {
				return c.Sle(a, b), true
			}
			return c.Ule(a, b), true
		case token.GTR:
			if ti.signed {
				return c.Slt(b, a), true
			}
			return c.Ult(b, a), true
		case token.GEQ:
			if ti.signed {
				return c.Sle(b, a), true
			}
			return c.Ule(b, a), true
		}
	}
	w.unsupported("binop %s on %T", op, x)
	return nil, false
}

func fl(f float64, w uint8) FloatV {
	if w == 32 {
		f = float64(float32(f))
	}
	return FloatV{f: f, w: w}
}

func (w *Worker) shift(g *Goroutine, op token.Token, a, b *Term, signed, ysigned bool) (Value, bool) {
	c := w.c
	if ysigned {
		neg := c.Slt(b, c.Const(b.w, 0))
		if !neg.isFalse() {
			if neg.isTrue() || w.branch(neg) {
				w.goPanicStr(g, "shift", "negative shift amount")
				return nil, false
			}
		}
	}
	// bring the count to a's width, saturating
	var cnt *Term
	if b.w > a.w {
		big := c.Not(c.Ult(b, c.Const(b.w, uint64(a.w))))
		cnt = c.Ite(big, c.Const(a.w, uint64(a.w)), c.Trunc(b, a.w))
		if a.w == 8 && a.w > 0 {
			// fits
		}
	} else {
		cnt = c.Zext(b, a.w)
	}
	o := OShl
	if op == token.SHR {
		o = OLshr
		if signed {
			o = OAshr
		}
	}
	return c.Bin(o, a, cnt), true
}

func (w *Worker) strLess(a, b *Str) *Term {
	n, m := w.strLen(a), w.strLen(b)
	c := w.c
	k := n
	if m < k {
		k = m
	}
	r := c.Bool(n < m)
	for i := k - 1; i >= 0; i-- {
		x, y := w.strAt(a, i), w.strAt(b, i)
		r = c.Ite(c.Eq(x, y), r, c.Ult(x, y))
	}
	return r
}

// eqVal builds the equality condition of two values of the same static type.
func (w *Worker) eqVal(x, y Value) *Term {
	c := w.c
	switch a := x.(type) {
	case *Term:
		return c.Eq(a, y.(*Term))
	case FloatV:
		b := y.(FloatV)
		if a.sym != nil || b.sym != nil {
			if a.sym != nil && b.sym != nil {
				return c.Eq(a.sym, b.sym)
			}
			if a.sym == nil {
				a, b = b, a
			}
			if b.f == math.Trunc(b.f) && math.Abs(b.f) < 1<<52 {
				return c.Eq(a.sym, c.Const(64, uint64(int64(b.f))))
			}
			return c.False
		}
		return c.Bool(a.f == b.f)
	case *Str:
		b := y.(*Str)
		n := w.strLen(a)
		if n != w.strLen(b) {
			return c.False
		}
		r := c.True
		for i := 0; i < n; i++ {
			e := c.Eq(w.strAt(a, i), w.strAt(b, i))
			if e.isFalse() {
				return c.False
			}
			r = c.And(r, e)
		}
		return r
	case *StructV:
		b := y.(*StructV)
		r := c.True
		for i := range a.f {
			r = c.And(r, w.eqVal(a.f[i], b.f[i]))
		}
		return r
	case *TermArr:
		b := y.(*TermArr)
		r := c.True
		for i := 0; i < a.n; i++ {
			r = c.And(r, c.Eq(a.get(i), b.get(i)))
		}
		return r
	case *CellArr:
		b := y.(*CellArr)
		r := c.True
		for i := range a.cells {
			r = c.And(r, w.eqVal(a.cells[i], b.cells[i]))
		}
		return r
	case Slice:
		b := y.(Slice)
		if a.isNil() || b.isNil() {
			return c.Bool(a.isNil() && b.isNil())
		}
	case *Value:
		switch b := y.(type) {
		case *Value:
			return c.Bool(a == b)
		case TPtr, APtr:
			return c.False
		}
	case TPtr:
		if b, ok := y.(TPtr); ok {
			if a.a != b.a {
				return c.False
			}
			if a.sidx == nil && b.sidx == nil {
				return c.Bool(a.i == b.i)
			}
		}
		return c.False
	case APtr:
		return c.False
	case Iface:
		b, ok := y.(Iface)
		if !ok {
			break
		}
		if a.t == nil || b.t == nil {
			return c.Bool(a.t == nil && b.t == nil)
		}
		if a.t != b.t {
			return c.False
		}
		return w.eqVal(a.v, b.v)
	case *MapObj:
		return c.Bool(a == y.(*MapObj))
	case *ChanObj:
		return c.Bool(a == y.(*ChanObj))
	case *Closure:
		b := y.(*Closure)
		return c.Bool(a == b)
	case UPtr:
		if b, ok := y.(UPtr); ok {
			return w.eqVal(a.p, b.p)
		}
		return c.False
	}
	w.unsupported("equality of %T and %T", x, y)
	return nil
}
