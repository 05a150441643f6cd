package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// mergeInfo describes a region that can be executed speculatively and joined.
type mergeInfo struct {
	region []*BlockInfo // topological order, excluding the head
	join   *BlockInfo
}

const noPdom = -1

// ipdoms computes immediate post-dominators of fn's blocks (index len(blocks) is the virtual exit).
func (e *Engine) ipdoms(fn *ssa.Function) []int {
	if v, ok := e.ipd.Load(fn); ok {
		return v.([]int)
	}
	n := len(fn.Blocks)
	exit := n
	// order: reverse post-order of the reversed graph
	preds := make([][]int, n+1) // successors in the reversed graph = preds in the original
	succs := make([][]int, n+1)
	for i, b := range fn.Blocks {
		if len(b.Succs) == 0 {
			succs[i] = append(succs[i], exit)
			preds[exit] = append(preds[exit], i)
		}
		for _, s := range b.Succs {
			succs[i] = append(succs[i], s.Index)
			preds[s.Index] = append(preds[s.Index], i)
		}
	}
	var order []int
	num := make([]int, n+1)
	for i := range num {
		num[i] = -1
	}
	seen := make([]bool, n+1)
	var dfs func(int)
	dfs = func(x int) {
		seen[x] = true
		for _, p := range preds[x] {
			if !seen[p] {
				dfs(p)
			}
		}
		order = append(order, x)
	}
	dfs(exit)
	for i, x := range order {
		num[x] = i
	}
	idom := make([]int, n+1)
	for i := range idom {
		idom[i] = noPdom
	}
	idom[exit] = exit
	inter := func(a, b int) int {
		for a != b {
			for num[a] < num[b] {
				a = idom[a]
			}
			for num[b] < num[a] {
				b = idom[b]
			}
		}
		return a
	}
	for changed := true; changed; {
		changed = false
		for i := len(order) - 2; i >= 0; i-- {
			x := order[i]
			nd := noPdom
			for _, s := range succs[x] {
				if num[s] < 0 || idom[s] == noPdom {
					continue
				}
				if nd == noPdom {
					nd = s
				} else {
					nd = inter(nd, s)
				}
			}
			if nd != idom[x] {
				idom[x] = nd
				changed = true
			}
		}
	}
	e.ipd.Store(fn, idom)
	return idom
}

func specInstr(in ssa.Instruction) bool {
	switch x := in.(type) {
	case *ssa.BinOp:
		return x.Op != token.QUO && x.Op != token.REM
	case *ssa.UnOp:
		return x.Op != token.ARROW
	case *ssa.Phi, *ssa.Jump, *ssa.If, *ssa.FieldAddr, *ssa.Field, *ssa.IndexAddr, *ssa.Index, *ssa.Convert, *ssa.ChangeType, *ssa.Extract, *ssa.Lookup, *ssa.ChangeInterface, *ssa.MakeInterface, *ssa.DebugRef, *ssa.TypeAssert:
		return true
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "len", "cap", "min", "max":
				return true
			}
			return false
		}
		f := x.Call.StaticCallee()
		return f != nil && !x.Call.IsInvoke() && pureCallee(f)
	}
	return false
}

func pureCallee(f *ssa.Function) bool {
	if f.Blocks == nil || len(f.Blocks) > 12 {
		return false
	}
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Index <= b.Index && s.Dominates(b) {
				return false
			}
		}
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Return); ok {
				continue
			}
			if _, ok := in.(*ssa.Call); ok {
				return false
			}
			if !specInstr(in) {
				return false
			}
		}
	}
	return true
}

// usedAsIndex reports whether v flows (inside its function) into an index, a
// bound, a length, a call or a return value.
func usedAsIndex(v ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var visit func(ssa.Value) bool
	visit = func(v ssa.Value) bool {
		if seen[v] {
			return false
		}
		seen[v] = true
		refs := v.Referrers()
		if refs == nil {
			return false
		}
		for _, r := range *refs {
			switch x := r.(type) {
			case *ssa.IndexAddr:
				if x.Index == v {
					return true
				}
			case *ssa.Index:
				if x.Index == v {
					return true
				}
			case *ssa.Slice, *ssa.MakeSlice, *ssa.MakeChan, *ssa.Return, *ssa.Call, *ssa.Store, *ssa.Lookup, *ssa.MakeInterface:
				return true
			case *ssa.BinOp:
				switch x.Op {
				case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
				default:
					if visit(x) {
						return true
					}
				}
			case *ssa.Phi:
				if visit(x) {
					return true
				}
			case *ssa.Convert:
				if visit(x) {
					return true
				}
			case *ssa.ChangeType:
				if visit(x) {
					return true
				}
			}
		}
		return false
	}
	return visit(v)
}

func mergeableType(t types.Type) (ok bool, wide bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB {
		return false, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool, types.Uint8, types.Int8, types.Int16, types.Uint16, types.Int32, types.Uint32:
		return true, false
	case types.Int, types.Int64, types.Uint, types.Uint64, types.Uintptr:
		return true, true
	}
	return false, false
}

func (w *Worker) mergeInfo(fi *FnInfo, b *BlockInfo) *mergeInfo {
	if b.mdone {
		return b.merge
	}
	b.mdone = true
	fn := fi.fn
	idom := w.E.ipdoms(fn)
	j := idom[b.idx]
	if j == noPdom || j >= len(fn.Blocks) || j == b.idx {
		return nil
	}
	// collect the region
	in := map[int]bool{}
	var order []*BlockInfo
	state := map[int]int{}
	ok := true
	var dfs func(x int)
	dfs = func(x int) {
		if !ok || x == j {
			return
		}
		if x == b.idx || state[x] == 1 {
			ok = false // cycle
			return
		}
		if state[x] == 2 {
			return
		}
		state[x] = 1
		in[x] = true
		if len(in) > 10 {
			ok = false
			return
		}
		blk := fn.Blocks[x]
		if len(blk.Instrs) > 30 || len(blk.Succs) == 0 {
			ok = false
			return
		}
		for _, ins := range blk.Instrs {
			if !specInstr(ins) {
				ok = false
				return
			}
		}
		for _, s := range blk.Succs {
			dfs(s.Index)
		}
		state[x] = 2
		order = append(order, fi.blocks[x])
	}
	for _, s := range fn.Blocks[b.idx].Succs {
		dfs(s.Index)
	}
	if !ok {
		return nil
	}
	for x := range in {
		for _, p := range fn.Blocks[x].Preds {
			if p.Index != b.idx && !in[p.Index] {
				return nil
			}
		}
	}
	// phis of the join must be mergeable
	for _, ins := range fn.Blocks[j].Instrs {
		phi, isPhi := ins.(*ssa.Phi)
		if !isPhi {
			break
		}
		// all region edges carrying the same value need no merge
		same := true
		var v0 ssa.Value
		for i, p := range fn.Blocks[j].Preds {
			if p.Index == b.idx || in[p.Index] {
				if v0 == nil {
					v0 = phi.Edges[i]
				} else if v0 != phi.Edges[i] {
					same = false
				}
			}
		}
		if same {
			continue
		}
		mok, wide := mergeableType(phi.Type())
		if !mok || wide && usedAsIndex(phi) {
			return nil
		}
	}
	// reverse post-order
	for i, k := 0, len(order)-1; i < k; i, k = i+1, k-1 {
		order[i], order[k] = order[k], order[i]
	}
	b.merge = &mergeInfo{region: order, join: fi.blocks[j]}
	return b.merge
}

type edge struct {
	from int
	g    *Term
}

// tryShortcut goes on without a decision when one side of the branch does
// nothing but go where the other side is: the second operand of && and ||.
func (w *Worker) tryShortcut(g *Goroutine, fr *Frame) (done bool) {
	head := fr.block
	for s := 0; s < 2; s++ {
		t, f := head.succs[s], head.succs[1-s]
		if t == f || t == head || f == head || t.nphi > 0 || len(t.preds) != 1 || len(t.instrs) > 8 || !pureBlock(t) {
			continue
		}
		if w.shortcut(g, fr, head, t, f) {
			return true
		}
	}
	return false
}

func pureBlock(b *BlockInfo) bool {
	if b.pure == 0 {
		b.pure = 1
		for i := range b.instrs {
			if _, call := b.instrs[i].in.(*ssa.Call); call || !specInstr(b.instrs[i].in) {
				b.pure = 2
				break
			}
		}
	}
	return b.pure == 1
}

func (w *Worker) shortcut(g *Goroutine, fr *Frame, head, t, f *BlockInfo) (done bool) {
	depth := len(g.frames)
	savedPC, savedPrev, savedSteps := fr.pc, fr.prev, w.steps
	w.spec++
	defer func() {
		w.spec--
		r := recover()
		if r != nil {
			if _, ok := r.(specAbort); !ok {
				panic(r)
			}
			g.frames = g.frames[:depth]
			w.unwound = false
		}
		if r != nil || !done {
			fr.block, fr.pc, fr.prev = head, savedPC, savedPrev
			w.steps = savedSteps
			done = false
		}
	}()
	fr.block = t
	to := (*BlockInfo)(nil)
	for i := range t.instrs {
		ins := &t.instrs[i]
		fr.pc = i
		switch ins.in.(type) {
		case *ssa.Jump:
			to = t.succs[0]
		case *ssa.If:
			c := w.get(fr, &ins.ops[0]).(*Term)
			if c.isTrue() {
				to = t.succs[0]
			} else if c.isFalse() {
				to = t.succs[1]
			}
		default:
			w.steps++
			w.exec(g, fr, ins)
			if len(g.frames) != depth || w.unwound {
				return false
			}
		}
	}
	if to != f {
		return false
	}
	for i := 0; i < f.nphi; i++ {
		a, b := w.get(fr, &f.instrs[i].ops[predIdx(f, t.idx)]), w.get(fr, &f.instrs[i].ops[predIdx(f, head.idx)])
		if !identical(a, b) {
			return false
		}
	}
	fr.block = head
	w.jump(fr, f)
	w.merged++
	return true
}

func identical(a, b Value) bool {
	switch x := a.(type) {
	case *Term, *Str, *Value, *MapObj, *ChanObj, *Closure, TPtr, *StructV, Slice:
		return a == b
	case FloatV:
		y, ok := b.(FloatV)
		return ok && x == y
	case Iface:
		y, ok := b.(Iface)
		return ok && x.t == nil && y.t == nil
	case nil:
		return b == nil
	}
	return false
}

// tryMergeIf executes the region below a symbolic branch without forking.
func (w *Worker) tryMergeIf(g *Goroutine, fr *Frame, cond *Term) (done bool) {
	if w.E.opt.NoMerge || w.enum != nil || w.initDepth > 0 {
		return false
	}
	if w.pcset[cond] || w.pcset[w.c.Not(cond)] {
		return false
	}
	head := fr.block
	if w.tryShortcut(g, fr) {
		return true
	}
	mi := w.mergeInfo(fr.fi, head)
	if mi == nil {
		return false
	}
	depth := len(g.frames)
	savedPC, savedPrev := fr.pc, fr.prev
	savedSteps := w.steps
	w.spec++
	defer func() {
		w.spec--
		if r := recover(); r != nil {
			if _, ok := r.(specAbort); ok {
				g.frames = g.frames[:depth]
				fr.block, fr.pc, fr.prev = head, savedPC, savedPrev
				w.steps = savedSteps
				w.unwound = false
				done = false
				return
			}
			panic(r)
		}
	}()
	in := map[int][]edge{}
	addEdge := func(from, to int, gd *Term) {
		if !gd.isFalse() {
			in[to] = append(in[to], edge{from, gd})
		}
	}
	addEdge(head.idx, head.succs[0].idx, cond)
	addEdge(head.idx, head.succs[1].idx, w.c.Not(cond))
	if head.succs[0] == head.succs[1] {
		return false
	}
	for _, b := range mi.region {
		es := in[b.idx]
		if len(es) == 0 {
			continue
		}
		gd := w.c.False
		for _, e := range es {
			gd = w.c.Or(gd, e.g)
		}
		w.mergePhis(fr, b, es)
		fr.block = b
		for i := b.nphi; i < len(b.instrs); i++ {
			ins := &b.instrs[i]
			fr.pc = i
			switch ins.in.(type) {
			case *ssa.Jump:
				addEdge(b.idx, b.succs[0].idx, gd)
			case *ssa.If:
				c := w.get(fr, &ins.ops[0]).(*Term)
				addEdge(b.idx, b.succs[0].idx, w.c.And(gd, c))
				addEdge(b.idx, b.succs[1].idx, w.c.And(gd, w.c.Not(c)))
			default:
				w.steps++
				w.exec(g, fr, ins)
				if len(g.frames) != depth || w.unwound {
					panic(specAbort{"call"})
				}
			}
		}
	}
	es := in[mi.join.idx]
	if len(es) == 0 {
		panic(specAbort{"no edges"})
	}
	w.mergePhis(fr, mi.join, es)
	fr.prev = es[len(es)-1].from
	fr.block = mi.join
	fr.pc = mi.join.nphi
	w.merged++
	return true
}

func (w *Worker) mergePhis(fr *Frame, b *BlockInfo, es []edge) {
	if b.nphi == 0 {
		return
	}
	vals := make([]Value, b.nphi)
	for i := 0; i < b.nphi; i++ {
		var v Value
		for k, e := range es {
			x := w.get(fr, &b.instrs[i].ops[predIdx(b, e.from)])
			if k == 0 {
				v = x
			} else {
				v = w.mergeVal(e.g, x, v)
			}
		}
		vals[i] = v
	}
	for i := range vals {
		fr.env[b.instrs[i].dst] = vals[i]
	}
}

func predIdx(b *BlockInfo, from int) int {
	for i, p := range b.preds {
		if p == from {
			return i
		}
	}
	panic(engineErr{"no such predecessor"})
}

// mergeVal is ite(g, x, y).
func (w *Worker) mergeVal(g *Term, x, y Value) Value {
	switch a := x.(type) {
	case *Term:
		b, ok := y.(*Term)
		if ok {
			if a == b {
				return a
			}
			if g.isTrue() {
				return a
			}
			return w.c.Ite(g, a, b)
		}
	case FloatV:
		if b, ok := y.(FloatV); ok && a == b {
			return a
		}
	case *Str:
		b, ok := y.(*Str)
		if ok && a == b {
			return a
		}
		if ok && w.strLen(a) == w.strLen(b) {
			n := w.strLen(a)
			ts := make([]*Term, n)
			for i := range ts {
				ts[i] = w.c.Ite(g, w.strAt(a, i), w.strAt(b, i))
			}
			return w.mkStr(ts)
		}
	case Slice:
		if b, ok := y.(Slice); ok && a == b {
			return a
		}
	case *Value, *MapObj, *ChanObj, *Closure, TPtr, *StructV:
		if x == y {
			return x
		}
	case Iface:
		if b, ok := y.(Iface); ok && a.t == b.t {
			if a.t == nil {
				return a
			}
			switch a.v.(type) {
			case *Value, *Term, *Str:
				return Iface{a.t, w.mergeVal(g, a.v, b.v)}
			}
		}
	case Tuple:
		if b, ok := y.(Tuple); ok && len(a) == len(b) {
			r := make(Tuple, len(a))
			for i := range a {
				r[i] = w.mergeVal(g, a[i], b[i])
			}
			return r
		}
	}
	panic(specAbort{"merge"})
}

// ---- call merging

type enumState struct {
	alts  []bool
	conds []*Term
	pos   int
}

func (w *Worker) enumBranch(t *Term) bool {
	e := w.enum
	// implied by earlier local decisions
	for i, c := range e.conds[:e.pos] {
		if c == t {
			return e.alts[i]
		}
	}
	if e.pos < len(e.alts) {
		e.conds[e.pos] = t
		e.pos++
		return e.alts[e.pos-1]
	}
	e.alts = append(e.alts, true)
	e.conds = append(e.conds, t)
	e.pos++
	if len(e.alts) > 12 {
		panic(specAbort{"too many branches"})
	}
	return true
}

// tryMergeCall evaluates a small pure function on symbolic scalars to one merged result.
func (w *Worker) tryMergeCall(fi *FnInfo, args []Value, free []Value) (res Value, ok bool) {
	if w.E.opt.NoMerge || w.enum != nil || w.initDepth > 0 || fi.pure < 0 || len(free) > 0 {
		return nil, false
	}
	if fi.pure == 0 {
		fi.pure = -1
		rs := fi.fn.Signature.Results()
		good := rs.Len() >= 1 && pureCallee(fi.fn) && len(fi.fn.Blocks) > 1
		for i := 0; good && i < rs.Len(); i++ {
			m, wide := mergeableType(rs.At(i).Type())
			if !m || wide {
				good = false
			}
		}
		if good {
			fi.pure = 1
		}
		if fi.pure < 0 {
			return nil, false
		}
	}
	sym := false
	for _, a := range args {
		if t, isT := a.(*Term); isT && !t.isConst() {
			sym = true
		}
	}
	if !sym && w.spec == 0 {
		return nil, false
	}
	savedCur, savedSteps := w.cur, w.steps
	e := &enumState{}
	w.enum = e
	w.spec++
	defer func() {
		w.enum = nil
		w.spec--
		w.cur = savedCur
		w.unwound = false
		if r := recover(); r != nil {
			if _, isS := r.(specAbort); isS {
				w.steps = savedSteps
				res, ok = nil, false
				return
			}
			panic(r)
		}
	}()
	type leaf struct {
		g *Term
		v Value
	}
	var leaves []leaf
	for {
		e.pos = 0
		g := &Goroutine{id: -1, nested: true}
		w.cur = g
		w.pushFrame(g, fi, args, nil, -1)
		w.runG(g)
		if g.status != gDone || g.crashed != nil {
			panic(specAbort{"incomplete"})
		}
		gd := w.c.True
		for i := range e.alts {
			c := e.conds[i]
			if !e.alts[i] {
				c = w.c.Not(c)
			}
			gd = w.c.And(gd, c)
		}
		leaves = append(leaves, leaf{gd, g.retVal})
		if len(leaves) > 24 {
			panic(specAbort{"too many leaves"})
		}
		// next
		for len(e.alts) > 0 && !e.alts[len(e.alts)-1] {
			e.alts = e.alts[:len(e.alts)-1]
			e.conds = e.conds[:len(e.conds)-1]
		}
		if len(e.alts) == 0 {
			break
		}
		e.alts[len(e.alts)-1] = false
	}
	r := leaves[len(leaves)-1].v
	for i := len(leaves) - 2; i >= 0; i-- {
		r = w.mergeVal(leaves[i].g, leaves[i].v, r)
	}
	w.merged++
	fi.hits++
	return r, true
}

// exitInfo describes a region of pure conditions with several ways out.
type exitInfo struct {
	region []*BlockInfo // topological order, excluding the head
	groups []exitGroup
}

// exitGroup is a set of edges to one block that agree on the values that cannot be merged.
type exitGroup struct {
	to    *BlockInfo
	edges [][2]int // from, successor index
}

func (w *Worker) exitInfo(fi *FnInfo, b *BlockInfo) *exitInfo {
	if b.xdone {
		return b.exits
	}
	b.xdone = true
	fn := fi.fn
	in := map[int]bool{}
	var order []int
	for again := true; again; {
		again = false
		for _, x := range append([]int{b.idx}, order...) {
			for _, s := range fn.Blocks[x].Succs {
				if in[s.Index] || s.Index == b.idx || len(order) >= 24 || len(s.Instrs) > 30 || len(s.Succs) == 0 {
					continue
				}
				ok := true
				for _, p := range s.Preds {
					if p.Index != b.idx && !in[p.Index] {
						ok = false
					}
				}
				for _, ins := range s.Instrs {
					if ok && !specInstr(ins) {
						ok = false
					}
					if phi, isPhi := ins.(*ssa.Phi); isPhi && ok {
						if m, wide := mergeableType(phi.Type()); !m || wide && usedAsIndex(phi) {
							ok = false
						}
					}
				}
				if ok {
					in[s.Index] = true
					order = append(order, s.Index)
					again = true
				}
			}
		}
	}
	if len(order) == 0 {
		return nil
	}
	// order holds every block after all its predecessors
	x := &exitInfo{}
	keys := map[string]int{}
	for _, i := range append([]int{b.idx}, order...) {
		if i != b.idx {
			x.region = append(x.region, fi.blocks[i])
		}
		blk := fn.Blocks[i]
		for k, s := range blk.Succs {
			if in[s.Index] {
				continue
			}
			key := fmt.Sprint(s.Index)
			for _, ins := range s.Instrs {
				phi, isPhi := ins.(*ssa.Phi)
				if !isPhi {
					break
				}
				if m, wide := mergeableType(phi.Type()); !m || wide && usedAsIndex(phi) {
					for pi, p := range s.Preds {
						if p == blk {
							if c, ok := phi.Edges[pi].(*ssa.Const); ok {
								key += " const " + c.String()
							} else {
								key += fmt.Sprintf(" %p", phi.Edges[pi])
							}
							break
						}
					}
				}
			}
			g, ok := keys[key]
			if !ok {
				g = len(x.groups)
				keys[key] = g
				x.groups = append(x.groups, exitGroup{to: fi.blocks[s.Index]})
			}
			x.groups[g].edges = append(x.groups[g].edges, [2]int{i, k})
		}
	}
	n := 0
	for _, g := range x.groups {
		n += len(g.edges)
	}
	if n <= len(x.groups) {
		return nil // nothing to gain
	}
	b.exits = x
	return x
}

// tryMergeExits evaluates a region of conditions without forking, then forks on the way out.
func (w *Worker) tryMergeExits(g *Goroutine, fr *Frame, cond *Term) bool {
	if w.E.opt.NoMerge || w.enum != nil || w.initDepth > 0 || w.spec > 0 {
		return false
	}
	if w.pcset[cond] || w.pcset[w.c.Not(cond)] {
		return false
	}
	x := w.exitInfo(fr.fi, fr.block)
	if x == nil {
		return false
	}
	guards := w.evalRegion(g, fr, x, cond)
	if guards == nil {
		return false
	}
	var live []int
	grp := make([]*Term, len(x.groups))
	for i, gr := range x.groups {
		grp[i] = w.c.False
		for _, e := range gr.edges {
			if gd, ok := guards[e]; ok {
				grp[i] = w.c.Or(grp[i], gd)
			}
		}
		if !grp[i].isFalse() {
			live = append(live, i)
		}
	}
	for k, i := range live {
		if k < len(live)-1 && !w.branch(grp[i]) {
			continue
		}
		gr := x.groups[i]
		var es []edge
		for _, e := range gr.edges {
			if gd, ok := guards[e]; ok && !gd.isFalse() {
				es = append(es, edge{e[0], gd})
			}
		}
		w.exitPhis(fr, gr.to, es)
		fr.prev = es[len(es)-1].from
		fr.block = gr.to
		fr.pc = gr.to.nphi
		w.merged++
		return true
	}
	panic(engineErr{"no way out of a region"})
}

// evalRegion returns the guards of the edges that leave the region.
func (w *Worker) evalRegion(g *Goroutine, fr *Frame, x *exitInfo, cond *Term) (out map[[2]int]*Term) {
	head := fr.block
	depth := len(g.frames)
	savedPC, savedPrev := fr.pc, fr.prev
	savedSteps := w.steps
	w.spec++
	defer func() {
		w.spec--
		fr.block, fr.pc, fr.prev = head, savedPC, savedPrev
		if r := recover(); r != nil {
			if _, ok := r.(specAbort); ok {
				g.frames = g.frames[:depth]
				w.steps = savedSteps
				w.unwound = false
				out = nil
				return
			}
			panic(r)
		}
	}()
	inside := map[int]bool{}
	for _, b := range x.region {
		inside[b.idx] = true
	}
	out = map[[2]int]*Term{}
	in := map[int][]edge{}
	addEdge := func(b *BlockInfo, k int, gd *Term) {
		if gd.isFalse() {
			return
		}
		to := b.succs[k].idx
		if inside[to] {
			in[to] = append(in[to], edge{b.idx, gd})
		} else {
			out[[2]int{b.idx, k}] = gd
		}
	}
	if head.succs[0] == head.succs[1] {
		return nil
	}
	addEdge(head, 0, cond)
	addEdge(head, 1, w.c.Not(cond))
	for _, b := range x.region {
		es := in[b.idx]
		if len(es) == 0 {
			continue
		}
		gd := w.c.False
		for _, e := range es {
			gd = w.c.Or(gd, e.g)
		}
		if v, ok := w.domDecide(gd); ok {
			if !v {
				continue // not reachable here
			}
			gd = w.c.True
		}
		w.mergePhis(fr, b, es)
		fr.block = b
		for i := b.nphi; i < len(b.instrs); i++ {
			ins := &b.instrs[i]
			fr.pc = i
			switch ins.in.(type) {
			case *ssa.Jump:
				addEdge(b, 0, gd)
			case *ssa.If:
				c := w.get(fr, &ins.ops[0]).(*Term)
				if b.succs[0] == b.succs[1] {
					panic(specAbort{"same successors"})
				}
				addEdge(b, 0, w.c.And(gd, c))
				addEdge(b, 1, w.c.And(gd, w.c.Not(c)))
			default:
				w.steps++
				w.exec(g, fr, ins)
				if len(g.frames) != depth || w.unwound {
					panic(specAbort{"call"})
				}
			}
		}
	}
	for k, gd := range out {
		if v, ok := w.domDecide(gd); ok {
			if v {
				out[k] = w.c.True
			} else {
				delete(out, k)
			}
		}
	}
	if len(out) == 0 {
		return nil
	}
	return out
}

// domDecide decides a condition on one byte from the values the path allows for it.
func (w *Worker) domDecide(t *Term) (val, ok bool) {
	if t.isConst() {
		return t.k == 1, true
	}
	v := w.c.singleByte(t)
	if v < 0 {
		return false, false
	}
	tt := w.c.truth(t, v)
	d, has := w.dom[v]
	if !has {
		d = byteSet{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}
		if n := w.c.vars[v].w; n < 6 {
			if n == 0 {
				n = 1
			}
			d = byteSet{1<<(1<<n) - 1}
		} else if n == 6 {
			d = byteSet{^uint64(0)}
		} else if n == 7 {
			d = byteSet{^uint64(0), ^uint64(0)}
		}
	}
	all, none := true, true
	for i := range d {
		if d[i]&^tt[i] != 0 {
			all = false
		}
		if d[i]&tt[i] != 0 {
			none = false
		}
	}
	if all && none {
		return false, false // contradictory path
	}
	if all {
		w.fact(t)
	} else if none {
		w.fact(w.c.Not(t))
	}
	return all, all || none
}

// exitPhis sets the phis of a block reached over edges that agree on the values that cannot be merged.
func (w *Worker) exitPhis(fr *Frame, b *BlockInfo, es []edge) {
	vals := make([]Value, b.nphi)
	for i := 0; i < b.nphi; i++ {
		phi := b.instrs[i].in.(*ssa.Phi)
		m, wide := mergeableType(phi.Type())
		m = m && !(wide && usedAsIndex(phi))
		var v Value
		for k, e := range es {
			x := w.get(fr, &b.instrs[i].ops[predIdx(b, e.from)])
			if k == 0 || !m {
				v = x
			} else {
				v = w.c.Ite(e.g, x.(*Term), v.(*Term))
			}
		}
		vals[i] = v
	}
	for i := range vals {
		fr.env[b.instrs[i].dst] = vals[i]
	}
}
