package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Value is one of:
//
//	*Term                     bool, integers
//	FloatV                    floats (concrete, or an exact integer-valued symbolic term)
//	*Str                      strings
//	*StructV                  structs (owned by one cell when stored)
//	*TermArr, *CellArr        arrays (identity-bearing when stored in a cell)
//	Slice                     slices
//	*Value (host pointer)     pointers to cells
//	TPtr                      pointers to elements of scalar arrays
//	APtr                      pointer-to-array obtained from a slice
//	Iface                     interfaces
//	*MapObj, *ChanObj
//	*Closure                  functions (nil: no function)
//	Tuple
//	UPtr                      unsafe.Pointer
type Value interface{}

type FloatV struct {
	f   float64
	sym *Term // signed 64-bit integer value, when symbolic
	w   uint8
}

// Str is a string. If view is set the bytes are read through from memory.
type Str struct {
	s    string
	sym  []*Term
	view *Slice
}

type StructV struct{ f []Value }

const pageBits = 8
const pageSize = 1 << pageBits

// TermArr is a lazily paged array of scalars.
type TermArr struct {
	n     int
	w     uint8
	pages [][]*Term
	zero  *Term
}

type CellArr struct{ cells []Value }

type Slice struct {
	t             *TermArr
	c             *CellArr
	off, len, cap int
}

func (s Slice) isNil() bool { return s.t == nil && s.c == nil }

type TPtr struct {
	a    *TermArr
	i    int
	sidx *Term // symbolic index if not nil
}

type APtr struct {
	s Slice
}

type Iface struct {
	t types.Type
	v Value
}

type MapObj struct {
	keys []Value
	vals []*Value
	idx  map[string]int // concrete string / scalar keys
	kt   types.Type
	vt   types.Type
	live int
	del  []bool
	gen  int
	nsym int // number of live keys that are not indexable
}

type ChanObj struct {
	id     int
	buf    []Value
	cap    int
	closed bool
	recvq  []*waiter
	sendq  []*waiter
	zero   Value
}

type waiter struct {
	g       *Goroutine
	caseI   int
	val     Value
	sel     *selState
	ch      *ChanObj
	isSend  bool
	deliver func(v Value, ok bool)
}

type selState struct {
	done bool
}

type Closure struct {
	fn   *ssa.Function
	free []Value
	bi   *ssa.Builtin
	nat  func(w *Worker, g *Goroutine, args []Value) Value
}

type Tuple []Value

type UPtr struct{ p Value }

type iter struct {
	m    *MapObj
	mi   int
	done map[int]bool
	gen  int
	s    *Str
	si   int
	perm bool
}

type NilPtr struct{}

var nilPtr = (*Value)(nil)

func newTermArr(c *Ctx, n int, w uint8) *TermArr {
	return &TermArr{n: n, w: w, pages: make([][]*Term, (n+pageSize-1)>>pageBits), zero: c.Const(w, 0)}
}

// page returns page pi, allocating it if necessary.
func (a *TermArr) page(pi int) []*Term {
	p := a.pages[pi]
	if p == nil {
		k := a.n - pi<<pageBits
		if k > pageSize {
			k = pageSize
		}
		p = make([]*Term, k)
		a.pages[pi] = p
	}
	return p
}

func (a *TermArr) get(i int) *Term {
	p := a.pages[i>>pageBits]
	if p == nil {
		return a.zero
	}
	t := p[i&(pageSize-1)]
	if t == nil {
		return a.zero
	}
	return t
}

func (w *Worker) tset(a *TermArr, i int, v *Term) {
	pi := i >> pageBits
	p := a.pages[pi]
	if p == nil {
		if v == a.zero {
			return
		}
		p = a.page(pi)
		if w.journalOn {
			w.journal = append(w.journal, jent{arr: a, idx: pi, page: true})
		}
	}
	if w.journalOn {
		w.journal = append(w.journal, jent{arr: a, idx: i, oldT: p[i&(pageSize-1)]})
	}
	p[i&(pageSize-1)] = v
	w.noteWrite()
}

// jent undoes one heap mutation.
type jent struct {
	p    *Value
	old  Value
	arr  *TermArr
	idx  int
	oldT *Term
	page bool
	fn   func()
}

func (w *Worker) set(p *Value, v Value) {
	if w.journalOn {
		w.journal = append(w.journal, jent{p: p, old: *p})
	}
	*p = v
	w.noteWrite()
}

func (w *Worker) undo(fn func()) {
	if w.journalOn {
		w.journal = append(w.journal, jent{fn: fn})
	}
	w.noteWrite()
}

func (w *Worker) noteWrite() {
	w.writes++
}

func (w *Worker) rollback(n int) {
	for i := len(w.journal) - 1; i >= n; i-- {
		j := &w.journal[i]
		switch {
		case j.fn != nil:
			j.fn()
		case j.arr != nil:
			if j.page {
				j.arr.pages[j.idx] = nil
			} else {
				j.arr.pages[j.idx>>pageBits][j.idx&(pageSize-1)] = j.oldT
			}
		default:
			*j.p = j.old
		}
		*j = jent{}
	}
	w.journal = w.journal[:n]
}

// ---- strings

func concStr(s string) *Str { return &Str{s: s} }

func (w *Worker) strLen(s *Str) int {
	if s.view != nil {
		return s.view.len
	}
	if s.sym != nil {
		return len(s.sym)
	}
	return len(s.s)
}

func (w *Worker) strAt(s *Str, i int) *Term {
	if s.view != nil {
		return s.view.t.get(s.view.off + i)
	}
	if s.sym != nil {
		return s.sym[i]
	}
	return w.c.small[8][s.s[i]]
}

// strConc returns the Go string if all bytes are concrete.
func (w *Worker) strConc(s *Str) (string, bool) {
	if s.view == nil && s.sym == nil {
		return s.s, true
	}
	n := w.strLen(s)
	b := make([]byte, n)
	for i := 0; i < n; i++ {
		t := w.strAt(s, i)
		if !t.isConst() {
			return "", false
		}
		b[i] = byte(t.k)
	}
	return string(b), true
}

func (w *Worker) mkStr(ts []*Term) *Str {
	for _, t := range ts {
		if !t.isConst() {
			return &Str{sym: ts}
		}
	}
	b := make([]byte, len(ts))
	for i, t := range ts {
		b[i] = byte(t.k)
	}
	return &Str{s: string(b)}
}

func (w *Worker) strTerms(s *Str) []*Term {
	if s.sym != nil {
		return s.sym
	}
	n := w.strLen(s)
	r := make([]*Term, n)
	for i := range r {
		r[i] = w.strAt(s, i)
	}
	return r
}

func (w *Worker) substr(s *Str, lo, hi int) *Str {
	if s.view != nil {
		v := *s.view
		v.off += lo
		v.len = hi - lo
		v.cap = hi - lo
		return &Str{view: &v}
	}
	if s.sym != nil {
		return w.mkStr(s.sym[lo:hi])
	}
	return &Str{s: s.s[lo:hi]}
}

func (w *Worker) sliceTerms(s Slice) []*Term {
	r := make([]*Term, s.len)
	for i := range r {
		r[i] = s.t.get(s.off + i)
	}
	return r
}

func (w *Worker) bytesOf(v Value) []*Term {
	switch x := v.(type) {
	case *Str:
		return w.strTerms(x)
	case Slice:
		return w.sliceTerms(x)
	}
	panic(engineErr{fmt.Sprintf("bytesOf %T", v)})
}

func (w *Worker) sliceFromTerms(ts []*Term, width uint8) Slice {
	a := newTermArr(w.c, len(ts), width)
	for i, t := range ts {
		pi := i >> pageBits
		a.page(pi)[i&(pageSize-1)] = t
	}
	return Slice{t: a, len: len(ts), cap: len(ts)}
}

// ---- types

type tinfo struct {
	scalar bool
	w      uint8
	signed bool
}

func (w *Worker) ti(t types.Type) tinfo {
	if r, ok := w.tiCache[t]; ok {
		return r
	}
	r := tinfo{}
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch b.Kind() {
		case types.Bool, types.UntypedBool:
			r = tinfo{true, 0, false}
		case types.Int, types.Int64, types.UntypedInt:
			r = tinfo{true, 64, true}
		case types.Int8:
			r = tinfo{true, 8, true}
		case types.Int16:
			r = tinfo{true, 16, true}
		case types.Int32, types.UntypedRune:
			r = tinfo{true, 32, true}
		case types.Uint, types.Uint64, types.Uintptr:
			r = tinfo{true, 64, false}
		case types.Uint8:
			r = tinfo{true, 8, false}
		case types.Uint16:
			r = tinfo{true, 16, false}
		case types.Uint32:
			r = tinfo{true, 32, false}
		}
	}
	w.tiCache[t] = r
	return r
}

func (w *Worker) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.String, types.UntypedString:
			return emptyStr
		case types.Float32:
			return FloatV{w: 32}
		case types.Float64, types.UntypedFloat:
			return FloatV{w: 64}
		case types.UnsafePointer:
			return UPtr{nilPtr}
		case types.UntypedNil:
			return nilPtr
		case types.Complex64, types.Complex128:
			return FloatV{w: 64}
		}
		ti := w.ti(t)
		if !ti.scalar {
			panic(engineErr{"zero of " + t.String()})
		}
		return w.c.Const(ti.w, 0)
	case *types.Pointer:
		return nilPtr
	case *types.Struct:
		s := &StructV{f: make([]Value, u.NumFields())}
		for i := range s.f {
			s.f[i] = w.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		return w.newArr(u.Elem(), int(u.Len()))
	case *types.Slice:
		return Slice{}
	case *types.Interface:
		return Iface{}
	case *types.Map:
		return (*MapObj)(nil)
	case *types.Chan:
		return (*ChanObj)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Tuple:
		r := make(Tuple, u.Len())
		for i := range r {
			r[i] = w.zero(u.At(i).Type())
		}
		return r
	}
	panic(engineErr{"zero of " + t.String()})
}

var emptyStr = &Str{}

func (w *Worker) newArr(elem types.Type, n int) Value {
	if ti := w.ti(elem); ti.scalar {
		return newTermArr(w.c, n, ti.w)
	}
	a := &CellArr{cells: make([]Value, n)}
	if n > 0 {
		switch elem.Underlying().(type) {
		case *types.Struct, *types.Array:
			for i := range a.cells {
				a.cells[i] = w.zero(elem)
			}
		default:
			z := w.zero(elem)
			for i := range a.cells {
				a.cells[i] = z
			}
		}
	}
	return a
}

func (w *Worker) makeSlice(elem types.Type, n, c int) Slice {
	switch a := w.newArr(elem, c).(type) {
	case *TermArr:
		return Slice{t: a, len: n, cap: c}
	case *CellArr:
		return Slice{c: a, len: n, cap: c}
	}
	panic("unreachable")
}

// copyVal makes an independent copy of aggregate values.
func (w *Worker) copyVal(v Value) Value {
	switch x := v.(type) {
	case *StructV:
		n := &StructV{f: make([]Value, len(x.f))}
		for i, e := range x.f {
			switch e.(type) {
			case *StructV, *TermArr, *CellArr:
				n.f[i] = w.copyVal(e)
			default:
				n.f[i] = e
			}
		}
		return n
	case *TermArr:
		n := &TermArr{n: x.n, w: x.w, zero: x.zero, pages: make([][]*Term, len(x.pages))}
		for i, p := range x.pages {
			if p != nil {
				n.pages[i] = append([]*Term(nil), p...)
			}
		}
		return n
	case *CellArr:
		n := &CellArr{cells: make([]Value, len(x.cells))}
		for i, e := range x.cells {
			n.cells[i] = w.copyVal(e)
		}
		return n
	}
	return v
}

// storeCell stores v into cell p, keeping the identity of aggregates.
func (w *Worker) storeCell(p *Value, v Value) {
	switch x := v.(type) {
	case *StructV:
		if d, ok := (*p).(*StructV); ok && len(d.f) == len(x.f) {
			if d == x {
				return
			}
			for i := range x.f {
				w.storeCell(&d.f[i], x.f[i])
			}
			return
		}
		w.set(p, w.copyVal(x))
	case *TermArr:
		if d, ok := (*p).(*TermArr); ok && d.n == x.n && d.w == x.w {
			if d == x {
				return
			}
			for i := 0; i < x.n; i++ {
				if d.get(i) != x.get(i) {
					w.tset(d, i, x.get(i))
				}
			}
			return
		}
		w.set(p, w.copyVal(x))
	case *CellArr:
		if d, ok := (*p).(*CellArr); ok && len(d.cells) == len(x.cells) {
			if d == x {
				return
			}
			for i := range x.cells {
				w.storeCell(&d.cells[i], x.cells[i])
			}
			return
		}
		w.set(p, w.copyVal(x))
	default:
		w.set(p, v)
	}
}

// hasSym reports whether a value has directly visible symbolic parts.
func (w *Worker) hasSym(v Value) bool {
	switch x := v.(type) {
	case *Term:
		return !x.isConst()
	case *Str:
		_, ok := w.strConc(x)
		return !ok
	case Slice:
		if x.t != nil && x.len <= 4096 {
			for i := 0; i < x.len; i++ {
				if !x.t.get(x.off + i).isConst() {
					return true
				}
			}
		}
	case *StructV:
		for _, e := range x.f {
			if w.hasSym(e) {
				return true
			}
		}
	case Iface:
		return w.hasSym(x.v)
	}
	return false
}
