package main

import (
	"fmt"
	"math/bits"
	"strconv"
	"strings"
)

// Op is a term operator. Terms are SMT terms over booleans and bit-vectors.
type Op uint8

const (
	OConst Op = iota
	OVar
	OUF // uninterpreted function application, result BV
	ONot
	OAnd
	OOr
	OEq
	OIte
	OUlt
	OUle
	OSlt
	OSle
	OAdd
	OSub
	OMul
	OUdiv
	OUrem
	OSdiv
	OSrem
	OBand
	OBor
	OBxor
	OBnot
	ONeg
	OShl
	OLshr
	OAshr
	OConcat
	OExtract
	OZext
	OSext
)

var opNames = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle",
	OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUdiv: "bvudiv", OUrem: "bvurem", OSdiv: "bvsdiv", OSrem: "bvsrem", OBand: "bvand", OBor: "bvor", OBxor: "bvxor",
	OBnot: "bvnot", ONeg: "bvneg", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OConcat: "concat"}

// Term is a hash-consed term. w is the bit width; 0 means Bool.
type Term struct {
	op      Op
	w       uint8
	hi, lo  uint8
	k       uint64
	a, b, c *Term
	args    []*Term
	name    string
	id      uint32
	varID   int32
	vars    []uint64 // bitset of variable ids
	ev      uint64   // memoised evaluation
	evGen   uint32
	defGen  uint32 // solver definition generation
	uf      bool   // contains an uninterpreted function application
	max     uint64 // memoised bounds
	min     uint64
	maxOK   bool
	minOK   bool
	vs      *byteSet // possible values of an 8-bit term, when vsOK
	vsOK    bool
	tt      *byteSet // values of the only variable that make a condition true
}

// byteSet is a set of byte values.
type byteSet [4]uint64

func (s *byteSet) has(k uint64) bool { return s[k>>6&3]>>(k&63)&1 == 1 }
func (s *byteSet) add(k uint64)      { s[k>>6&3] |= 1 << (k & 63) }
func (s *byteSet) empty() bool       { return s[0]|s[1]|s[2]|s[3] == 0 }

// valset returns a superset of the values of an 8-bit term, or nil.
func (t *Term) valset() *byteSet {
	if t.vsOK {
		return t.vs
	}
	t.vsOK = true
	switch t.op {
	case OConst:
		t.vs = &byteSet{}
		t.vs.add(t.k)
	case OIte:
		if x, y := t.b.valset(), t.c.valset(); x != nil && y != nil {
			t.vs = &byteSet{x[0] | y[0], x[1] | y[1], x[2] | y[2], x[3] | y[3]}
		}
	}
	return t.vs
}

// singleByte returns the only variable of a condition if it is a byte (or a bool), else -1.
func (c *Ctx) singleByte(t *Term) int {
	if t.uf {
		return -1
	}
	v := -1
	for i, x := range t.vars {
		if x == 0 {
			continue
		}
		if v >= 0 || x&(x-1) != 0 {
			return -1
		}
		v = i*64 + bits.TrailingZeros64(x)
	}
	if v >= 0 && c.vars[v].w > 8 {
		return -1
	}
	return v
}

// truth returns the values of byte variable v that make the condition true.
func (c *Ctx) truth(t *Term, v int) *byteSet {
	if t.tt != nil {
		return t.tt
	}
	s := &byteSet{}
	n := uint64(256)
	if c.vars[v].w < 8 {
		n = 1 << c.vars[v].w
		if c.vars[v].w == 0 {
			n = 2
		}
	}
	m := Model{}
	for k := uint64(0); k < n; k++ {
		m[c.vars[v].name] = k
		c.evGen++
		if c.eval(t, m) == 1 {
			s.add(k)
		}
	}
	c.evGen++
	t.tt = s
	return s
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isTrue() bool  { return t.op == OConst && t.w == 0 && t.k == 1 }
func (t *Term) isFalse() bool { return t.op == OConst && t.w == 0 && t.k == 0 }

type termKey struct {
	op      Op
	w       uint8
	hi, lo  uint8
	k       uint64
	a, b, c uint32
	name    string
}

// Ctx owns terms of one worker.
type Ctx struct {
	tab    map[termKey]*Term
	small  [65][]*Term
	nextID uint32
	True   *Term
	False  *Term
	vars   []*Term
	byName map[string]*Term
	evGen  uint32
	ufs    map[string]int // uf name -> number of 8-bit args
}

const smallN = 300

func NewCtx() *Ctx {
	c := &Ctx{tab: map[termKey]*Term{}, byName: map[string]*Term{}, ufs: map[string]int{}}
	c.nextID = 1
	c.False = c.newTerm(Term{op: OConst, w: 0, k: 0})
	c.True = c.newTerm(Term{op: OConst, w: 0, k: 1})
	for _, w := range []uint8{8, 16, 32, 64} {
		n := smallN
		if w == 8 {
			n = 256
		}
		c.small[w] = make([]*Term, n)
		for i := 0; i < n; i++ {
			c.small[w][i] = c.newTerm(Term{op: OConst, w: w, k: uint64(i)})
		}
	}
	return c
}

func (c *Ctx) newTerm(t Term) *Term {
	p := new(Term)
	*p = t
	p.id = c.nextID
	c.nextID++
	switch p.op {
	case OConst:
	case OVar:
		n := int(p.varID)/64 + 1
		p.vars = make([]uint64, n)
		p.vars[p.varID/64] = 1 << (uint(p.varID) % 64)
	default:
		p.vars = unionVars(unionVars(varsOf(p.a), varsOf(p.b)), varsOf(p.c))
		for _, x := range p.args {
			p.vars = unionVars(p.vars, x.vars)
		}
		p.uf = p.op == OUF || (p.a != nil && p.a.uf) || (p.b != nil && p.b.uf) || (p.c != nil && p.c.uf)
	}
	return p
}

func varsOf(t *Term) []uint64 {
	if t == nil {
		return nil
	}
	return t.vars
}

func subsetVars(a, b []uint64) bool { // a subset of b
	if len(a) > len(b) {
		return false
	}
	for i, x := range a {
		if x&^b[i] != 0 {
			return false
		}
	}
	return true
}

func unionVars(a, b []uint64) []uint64 {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	if subsetVars(b, a) {
		return a
	}
	if subsetVars(a, b) {
		return b
	}
	if len(a) < len(b) {
		a, b = b, a
	}
	r := append([]uint64(nil), a...)
	for i, x := range b {
		r[i] |= x
	}
	return r
}

func intersectVars(a, b []uint64) bool {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	for i := 0; i < n; i++ {
		if a[i]&b[i] != 0 {
			return true
		}
	}
	return false
}

func tid(t *Term) uint32 {
	if t == nil {
		return 0
	}
	return t.id
}

func (c *Ctx) mk(op Op, w uint8, a, b, d *Term) *Term {
	key := termKey{op: op, w: w, a: tid(a), b: tid(b), c: tid(d)}
	if t, ok := c.tab[key]; ok {
		return t
	}
	t := c.newTerm(Term{op: op, w: w, a: a, b: b, c: d})
	c.tab[key] = t
	return t
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext64(k uint64, w uint8) int64 {
	if w >= 64 {
		return int64(k)
	}
	s := 64 - uint(w)
	return int64(k<<s) >> s
}

func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}

func (c *Ctx) Const(w uint8, k uint64) *Term {
	if w == 0 {
		return c.Bool(k != 0)
	}
	k &= mask(w)
	if sm := c.small[w]; k < uint64(len(sm)) {
		return sm[k]
	}
	key := termKey{op: OConst, w: w, k: k}
	if t, ok := c.tab[key]; ok {
		return t
	}
	t := c.newTerm(Term{op: OConst, w: w, k: k})
	c.tab[key] = t
	return t
}

func (c *Ctx) Int(i int) *Term { return c.Const(64, uint64(int64(i))) }

func (c *Ctx) Var(name string, w uint8) *Term {
	name += "~" + strconv.Itoa(int(w)) // models travel between workers by name
	if t, ok := c.byName[name]; ok {
		return t
	}
	t := c.newTerm(Term{op: OVar, w: w, name: name, varID: int32(len(c.vars))})
	c.vars = append(c.vars, t)
	c.byName[name] = t
	return t
}

// UF applies an uninterpreted function of len(args) 8-bit arguments.
func (c *Ctx) UF(name string, w uint8, args []*Term) *Term {
	var sb strings.Builder
	sb.WriteString(name)
	for _, a := range args {
		fmt.Fprintf(&sb, ",%d", a.id)
	}
	key := termKey{op: OUF, w: w, name: sb.String()}
	if t, ok := c.tab[key]; ok {
		return t
	}
	c.ufs[name] = len(args)
	t := c.newTerm(Term{op: OUF, w: w, name: name, args: append([]*Term(nil), args...)})
	c.tab[key] = t
	return t
}

func (c *Ctx) Not(a *Term) *Term {
	switch {
	case a.op == OConst:
		return c.Bool(a.k == 0)
	case a.op == ONot:
		return a.a
	}
	return c.mk(ONot, 0, a, nil, nil)
}

func (c *Ctx) And(a, b *Term) *Term {
	switch {
	case a.isFalse() || b.isFalse():
		return c.False
	case a.isTrue():
		return b
	case b.isTrue():
		return a
	case a == b:
		return a
	case a.op == ONot && a.a == b, b.op == ONot && b.a == a:
		return c.False
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OAnd, 0, a, b, nil)
}

func (c *Ctx) Or(a, b *Term) *Term {
	switch {
	case a.isTrue() || b.isTrue():
		return c.True
	case a.isFalse():
		return b
	case b.isFalse():
		return a
	case a == b:
		return a
	case a.op == ONot && a.a == b, b.op == ONot && b.a == a:
		return c.True
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OOr, 0, a, b, nil)
}

func (c *Ctx) Ite(g, a, b *Term) *Term {
	switch {
	case g.isTrue():
		return a
	case g.isFalse():
		return b
	case a == b:
		return a
	}
	if g.op == ONot {
		return c.Ite(g.a, b, a)
	}
	if a.w == 0 {
		if a.isTrue() {
			return c.Or(g, b)
		}
		if a.isFalse() {
			return c.And(c.Not(g), b)
		}
		if b.isTrue() {
			return c.Or(c.Not(g), a)
		}
		if b.isFalse() {
			return c.And(g, a)
		}
	}
	if b.op == OIte && b.a == g {
		return c.Ite(g, a, b.c)
	}
	if a.op == OIte && a.a == g {
		return c.Ite(g, a.b, b)
	}
	if b.op == OIte && b.b == a {
		return c.Ite(c.Or(g, b.a), a, b.c)
	}
	return c.mk(OIte, a.w, g, a, b)
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.w != b.w {
		panic(engineErr{fmt.Sprintf("Eq width mismatch %d %d", a.w, b.w)})
	}
	if a.op == OConst && b.op == OConst {
		return c.Bool(a.k == b.k)
	}
	if a.w == 0 {
		if a.op == OConst {
			a, b = b, a
		}
		if b.isTrue() {
			return a
		}
		if b.isFalse() {
			return c.Not(a)
		}
	}
	if a.op == OConst {
		a, b = b, a
	}
	if b.op == OConst {
		switch a.op {
		case OZext:
			if b.k > mask(a.a.w) {
				return c.False
			}
			return c.Eq(a.a, c.Const(a.a.w, b.k))
		case OSext:
			iw := a.a.w
			if uint64(sext64(b.k, iw))&mask(a.w) != b.k {
				return c.False
			}
			return c.Eq(a.a, c.Const(iw, b.k))
		case OIte:
			if a.b.op == OConst || a.c.op == OConst {
				return c.Ite(a.a, c.Eq(a.b, b), c.Eq(a.c, b))
			}
			if a.w == 8 {
				if s := a.valset(); s != nil && !s.has(b.k) {
					return c.False
				}
			}
		case OAdd:
			if a.b.op == OConst {
				return c.Eq(a.a, c.Const(a.w, b.k-a.b.k))
			}
		case OBxor:
			if a.b.op == OConst {
				return c.Eq(a.a, c.Const(a.w, b.k^a.b.k))
			}
		case OConcat:
			return c.And(c.Eq(a.a, c.Const(a.a.w, b.k>>a.b.w)), c.Eq(a.b, c.Const(a.b.w, b.k)))
		case ONeg:
			return c.Eq(a.a, c.Const(a.w, -b.k))
		case OMul:
			if k, ok := exactMul(a); ok {
				if b.k%k != 0 {
					return c.False
				}
				return c.Eq(a.a, c.Const(a.w, b.k/k))
			}
		case OShl:
			if a.b.op == OConst && a.b.k < uint64(a.w) {
				if b.k&mask(uint8(a.b.k)) != 0 {
					return c.False
				}
			}
		case OBand:
			if a.b.op == OConst && b.k&^a.b.k != 0 {
				return c.False
			}
		case OBor:
			if a.b.op == OConst && a.b.k&^b.k != 0 {
				return c.False
			}
		}
	}
	if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
		return c.Eq(a.a, b.a)
	}
	if a.op == ONeg && b.op == ONeg {
		return c.Eq(a.a, b.a)
	}
	if a.op == OMul && b.op == OMul {
		if k1, ok := exactMul(a); ok {
			if k2, ok := exactMul(b); ok && k1 == k2 {
				return c.Eq(a.a, b.a)
			}
		}
	}
	if a.id > b.id && b.op != OConst {
		a, b = b, a
	}
	return c.mk(OEq, 0, a, b, nil)
}

// maxU returns an upper bound on the unsigned value of t.
func maxU(t *Term, depth int) uint64 {
	if t.op == OConst {
		return t.k
	}
	if t.maxOK {
		return t.max
	}
	if depth > 40 {
		return mask(t.w)
	}
	t.max = maxU1(t, depth)
	t.maxOK = true
	return t.max
}

func maxU1(t *Term, depth int) uint64 {
	m := mask(t.w)
	switch t.op {
	case OConst:
		return t.k
	case OZext:
		return maxU(t.a, depth+1)
	case OBand:
		x, y := maxU(t.a, depth+1), maxU(t.b, depth+1)
		if x < y {
			return x
		}
		return y
	case OLshr:
		if t.b.op == OConst {
			if t.b.k >= uint64(t.w) {
				return 0
			}
			return maxU(t.a, depth+1) >> t.b.k
		}
	case OIte:
		x, y := maxU(t.b, depth+1), maxU(t.c, depth+1)
		if x > y {
			return x
		}
		return y
	case OUrem:
		if t.b.op == OConst && t.b.k > 0 {
			x := maxU(t.a, depth+1)
			if x < t.b.k-1 {
				return x
			}
			return t.b.k - 1
		}
	case OUdiv:
		if t.b.op == OConst && t.b.k > 0 {
			return maxU(t.a, depth+1) / t.b.k
		}
	case OAdd:
		x, y := maxU(t.a, depth+1), maxU(t.b, depth+1)
		s, carry := bits.Add64(x, y, 0)
		if carry == 0 && s <= m {
			return s
		}
	case OMul:
		x, y := maxU(t.a, depth+1), maxU(t.b, depth+1)
		h, l := bits.Mul64(x, y)
		if h == 0 && l <= m {
			return l
		}
	case OShl:
		if t.b.op == OConst && t.b.k < 64 {
			x := maxU(t.a, depth+1)
			if x <= m>>t.b.k {
				return x << t.b.k
			}
		}
	case OBor, OBxor:
		x, y := maxU(t.a, depth+1), maxU(t.b, depth+1)
		n := bits.Len64(x | y)
		return mask(uint8(n)) & m
	case OConcat:
		return maxU(t.a, depth+1)<<t.b.w | mask(t.b.w)
	}
	return m
}

func minU(t *Term, depth int) uint64 {
	if t.op == OConst {
		return t.k
	}
	if t.minOK {
		return t.min
	}
	if depth > 40 {
		return 0
	}
	t.min = minU1(t, depth)
	t.minOK = true
	return t.min
}

func minU1(t *Term, depth int) uint64 {
	switch t.op {
	case OConst:
		return t.k
	case OZext:
		return minU(t.a, depth+1)
	case OIte:
		x, y := minU(t.b, depth+1), minU(t.c, depth+1)
		if x < y {
			return x
		}
		return y
	case OAdd:
		x, y := maxU(t.a, depth+1), maxU(t.b, depth+1)
		s, carry := bits.Add64(x, y, 0)
		if carry == 0 && s <= mask(t.w) {
			return minU(t.a, depth+1) + minU(t.b, depth+1)
		}
	case OBor:
		x, y := minU(t.a, depth+1), minU(t.b, depth+1)
		if x > y {
			return x
		}
		return y
	}
	return 0
}

func (c *Ctx) Ult(a, b *Term) *Term {
	if a.op == OConst && b.op == OConst {
		return c.Bool(a.k < b.k)
	}
	if a == b {
		return c.False
	}
	if b.op == OConst && b.k == 0 {
		return c.False
	}
	if maxU(a, 0) < minU(b, 0) {
		return c.True
	}
	if minU(a, 0) >= maxU(b, 0) {
		return c.False
	}
	if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
		return c.Ult(a.a, b.a)
	}
	if a.op == OZext && b.op == OConst {
		return c.Ult(a.a, c.Const(a.a.w, b.k)) // b.k <= max since not decided
	}
	if b.op == OZext && a.op == OConst {
		return c.Ult(c.Const(b.a.w, a.k), b.a)
	}
	return c.mk(OUlt, 0, a, b, nil)
}

func (c *Ctx) Ule(a, b *Term) *Term { return c.Not(c.Ult(b, a)) }

func (c *Ctx) Slt(a, b *Term) *Term {
	if a.op == OConst && b.op == OConst {
		return c.Bool(sext64(a.k, a.w) < sext64(b.k, b.w))
	}
	if a == b {
		return c.False
	}
	sm := mask(a.w - 1) // max positive
	if maxU(a, 0) <= sm && maxU(b, 0) <= sm {
		return c.Ult(a, b)
	}
	if b.op == OConst && b.k == 0 && maxU(a, 0) <= sm {
		return c.False
	}
	if a.op == ONeg && b.op == OConst && maxU(a.a, 0) <= sm {
		if sext64(b.k, b.w) > 0 {
			return c.True
		}
		if b.k != sm+1 {
			return c.Ult(c.Const(a.w, -b.k), a.a)
		}
	}
	if b.op == ONeg && a.op == OConst && maxU(b.a, 0) <= sm {
		if sext64(a.k, a.w) >= 0 {
			return c.False
		}
		if a.k != sm+1 {
			return c.Ult(b.a, c.Const(a.w, -a.k))
		}
	}
	if a.op == OSext && b.op == OSext && a.a.w == b.a.w {
		return c.Slt(a.a, b.a)
	}
	if a.op == OSext && b.op == OConst {
		iw := a.a.w
		if uint64(sext64(b.k, iw))&mask(a.w) == b.k {
			return c.Slt(a.a, c.Const(iw, b.k))
		}
		return c.Bool(sext64(b.k, b.w) > 0)
	}
	if b.op == OSext && a.op == OConst {
		iw := b.a.w
		if uint64(sext64(a.k, iw))&mask(b.w) == a.k {
			return c.Slt(c.Const(iw, a.k), b.a)
		}
		return c.Bool(sext64(a.k, a.w) < 0)
	}
	return c.mk(OSlt, 0, a, b, nil)
}

func (c *Ctx) Sle(a, b *Term) *Term { return c.Not(c.Slt(b, a)) }

func evalBin(op Op, w uint8, x, y uint64) uint64 {
	m := mask(w)
	switch op {
	case OAdd:
		return (x + y) & m
	case OSub:
		return (x - y) & m
	case OMul:
		return (x * y) & m
	case OUdiv:
		if y == 0 {
			return m
		}
		return x / y
	case OUrem:
		if y == 0 {
			return x
		}
		return x % y
	case OSdiv:
		sx, sy := sext64(x, w), sext64(y, w)
		if sy == 0 {
			if sx < 0 {
				return 1
			}
			return m
		}
		if sy == -1 {
			return uint64(-sx) & m
		}
		return uint64(sx/sy) & m
	case OSrem:
		sx, sy := sext64(x, w), sext64(y, w)
		if sy == 0 {
			return x
		}
		if sy == -1 {
			return 0
		}
		return uint64(sx%sy) & m
	case OBand:
		return x & y
	case OBor:
		return x | y
	case OBxor:
		return x ^ y
	case OShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case OLshr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OAshr:
		sx := sext64(x, w)
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sx>>y) & m
	}
	panic("evalBin")
}

// Bin builds a bit-vector binary operation.
func (c *Ctx) Bin(op Op, a, b *Term) *Term {
	w := a.w
	if a.w != b.w {
		panic(engineErr{fmt.Sprintf("Bin %s width mismatch %d %d", opNames[op], a.w, b.w)})
	}
	if a.op == OConst && b.op == OConst {
		return c.Const(w, evalBin(op, w, a.k, b.k))
	}
	switch op {
	case OAdd, OMul, OBand, OBor, OBxor:
		if a.op == OConst {
			a, b = b, a
		}
	}
	if b.op == OConst {
		m := mask(w)
		switch op {
		case OAdd:
			if b.k == 0 {
				return a
			}
			if a.op == OAdd && a.b.op == OConst {
				return c.Bin(OAdd, a.a, c.Const(w, a.b.k+b.k))
			}
		case OSub:
			return c.Bin(OAdd, a, c.Const(w, -b.k))
		case OMul:
			if b.k == 0 {
				return b
			}
			if b.k == 1 {
				return a
			}
			if a.op == OMul && a.b.op == OConst {
				return c.Bin(OMul, a.a, c.Const(w, a.b.k*b.k))
			}
			if a.op == ONeg {
				return c.Neg(c.Bin(OMul, a.a, b))
			}
			if b.k&(b.k-1) == 0 {
				return c.Bin(OShl, a, c.Const(w, uint64(bits.TrailingZeros64(b.k))))
			}
		case OUdiv:
			if b.k == 1 {
				return a
			}
			if k1, ok := exactMul(a); ok && b.k != 0 {
				if k1%b.k == 0 {
					return c.Bin(OMul, a.a, c.Const(w, k1/b.k))
				}
				if b.k%k1 == 0 {
					return c.Bin(OUdiv, a.a, c.Const(w, b.k/k1))
				}
			}
			if a.op == OUdiv && a.b.op == OConst && a.b.k != 0 && b.k != 0 {
				if h, l := bits.Mul64(a.b.k, b.k); h == 0 && l <= m {
					return c.Bin(OUdiv, a.a, c.Const(w, l))
				}
			}
			if b.k != 0 && b.k&(b.k-1) == 0 {
				return c.Bin(OLshr, a, c.Const(w, uint64(bits.TrailingZeros64(b.k))))
			}
			if b.k != 0 && maxU(a, 0) < b.k {
				return c.Const(w, 0)
			}
		case OUrem:
			if b.k == 1 {
				return c.Const(w, 0)
			}
			if k1, ok := exactMul(a); ok && b.k != 0 {
				if k1%b.k == 0 {
					return c.Const(w, 0)
				}
				if b.k%k1 == 0 {
					return c.Bin(OMul, c.Bin(OUrem, a.a, c.Const(w, b.k/k1)), c.Const(w, k1))
				}
			}
			if b.k != 0 && b.k&(b.k-1) == 0 {
				return c.Bin(OBand, a, c.Const(w, b.k-1))
			}
			if b.k != 0 && maxU(a, 0) < b.k {
				return a
			}
		case OSdiv, OSrem:
			sm := mask(w - 1)
			if b.k != 0 && b.k <= sm && maxU(a, 0) <= sm {
				if op == OSdiv {
					return c.Bin(OUdiv, a, b)
				}
				return c.Bin(OUrem, a, b)
			}
			if b.k != 0 && b.k <= sm && a.op == ONeg && maxU(a.a, 0) <= sm {
				if op == OSdiv {
					return c.Neg(c.Bin(OUdiv, a.a, b))
				}
				return c.Neg(c.Bin(OUrem, a.a, b))
			}
		case OBand:
			if b.k == 0 {
				return b
			}
			if b.k == m {
				return a
			}
			if a.op == OBand && a.b.op == OConst {
				return c.Bin(OBand, a.a, c.Const(w, a.b.k&b.k))
			}
			if b.k&(b.k+1) == 0 && maxU(a, 0) <= b.k {
				return a
			}
			if a.op == OZext {
				return c.Zext(c.Bin(OBand, a.a, c.Const(a.a.w, b.k)), w)
			}
		case OBor:
			if b.k == 0 {
				return a
			}
			if b.k == m {
				return b
			}
		case OBxor:
			if b.k == 0 {
				return a
			}
		case OShl, OLshr:
			if b.k == 0 {
				return a
			}
			if b.k >= uint64(w) {
				return c.Const(w, 0)
			}
			if op == OLshr && maxU(a, 0)>>b.k == 0 {
				return c.Const(w, 0)
			}
			if op == OLshr && a.op == OZext && b.k < uint64(a.a.w) {
				return c.Zext(c.Bin(OLshr, a.a, c.Const(a.a.w, b.k)), w)
			}
		case OAshr:
			if b.k == 0 {
				return a
			}
			if maxU(a, 0) <= mask(w-1) {
				return c.Bin(OLshr, a, b)
			}
		}
		if op == OUdiv || op == OUrem {
			if n := uint8(bits.Len64(maxU(a, 0))); n > 0 && n < w && b.k != 0 && b.k <= mask(n) {
				if t := c.Extract(a, n-1, 0); t.op != OExtract || a.op == OZext {
					return c.Zext(c.Bin(op, t, c.Const(n, b.k)), w)
				}
			}
		}
		// push operations with constants into ite with constant leaves
		if a.op == OIte && a.b.op == OConst && a.c.op == OConst {
			return c.Ite(a.a, c.Bin(op, a.b, b), c.Bin(op, a.c, b))
		}
	}
	if a == b {
		switch op {
		case OSub, OBxor:
			return c.Const(w, 0)
		case OBand, OBor:
			return a
		}
	}
	if op == OSub && b.op == OMul && b.b.op == OConst && b.a.op == OUdiv && b.a.b == b.b && b.a.a == a {
		return c.Bin(OUrem, a, b.b)
	}
	if op == OSub && a.op == OAdd && a.b.op == OConst && a.a == b {
		return a.b
	}
	if op == OSub && a.op == OAdd && b.op == OAdd && a.a == b.a && a.b.op == OConst && b.b.op == OConst {
		return c.Const(w, a.b.k-b.b.k)
	}
	switch op {
	case OAdd, OMul, OBand, OBor, OBxor:
		if a.id > b.id && b.op != OConst {
			a, b = b, a
		}
	}
	return c.mk(op, w, a, b, nil)
}

// exactMul tells whether a is x*k (k constant, not 0) that cannot overflow.
func exactMul(a *Term) (uint64, bool) {
	if a.op == OMul && a.b.op == OConst && a.b.k != 0 {
		if h, l := bits.Mul64(maxU(a.a, 0), a.b.k); h == 0 && l <= mask(a.w) {
			return a.b.k, true
		}
	}
	return 0, false
}

func (c *Ctx) Neg(a *Term) *Term {
	if a.op == OConst {
		return c.Const(a.w, -a.k)
	}
	if a.op == ONeg {
		return a.a
	}
	return c.mk(ONeg, a.w, a, nil, nil)
}

func (c *Ctx) Bnot(a *Term) *Term {
	if a.op == OConst {
		return c.Const(a.w, ^a.k)
	}
	if a.op == OBnot {
		return a.a
	}
	return c.mk(OBnot, a.w, a, nil, nil)
}

func (c *Ctx) Zext(a *Term, w uint8) *Term {
	switch {
	case a.w == w:
		return a
	case a.op == OConst:
		return c.Const(w, a.k)
	case a.op == OZext:
		return c.Zext(a.a, w)
	case a.op == OIte && a.b.op == OConst && a.c.op == OConst:
		return c.Ite(a.a, c.Const(w, a.b.k), c.Const(w, a.c.k))
	}
	return c.mk(OZext, w, a, nil, nil)
}

func (c *Ctx) Sext(a *Term, w uint8) *Term {
	switch {
	case a.w == w:
		return a
	case a.op == OConst:
		return c.Const(w, uint64(sext64(a.k, a.w)))
	case a.op == OSext:
		return c.Sext(a.a, w)
	case maxU(a, 0) <= mask(a.w-1):
		return c.Zext(a, w)
	}
	return c.mk(OSext, w, a, nil, nil)
}

func (c *Ctx) Trunc(a *Term, w uint8) *Term { return c.Extract(a, w-1, 0) }

func (c *Ctx) Extract(a *Term, hi, lo uint8) *Term {
	w := hi - lo + 1
	switch {
	case w == a.w:
		return a
	case a.op == OConst:
		return c.Const(w, a.k>>lo)
	case a.op == OZext || a.op == OSext:
		if hi < a.a.w {
			return c.Extract(a.a, hi, lo)
		}
		if a.op == OZext && lo >= a.a.w {
			return c.Const(w, 0)
		}
		if a.op == OZext && lo == 0 {
			return c.Zext(a.a, w)
		}
	case a.op == OExtract:
		return c.Extract(a.a, hi+a.lo, lo+a.lo)
	case a.op == OConcat:
		if hi < a.b.w {
			return c.Extract(a.b, hi, lo)
		}
		if lo >= a.b.w {
			return c.Extract(a.a, hi-a.b.w, lo-a.b.w)
		}
	case a.op == OIte && (a.b.op == OConst || a.c.op == OConst):
		return c.Ite(a.a, c.Extract(a.b, hi, lo), c.Extract(a.c, hi, lo))
	case lo == 0 && (a.op == OAdd || a.op == OBand || a.op == OBor || a.op == OBxor || a.op == OMul || a.op == OSub):
		return c.Bin(a.op, c.Extract(a.a, hi, 0), c.Extract(a.b, hi, 0))
	case lo == 0 && a.op == OShl && a.b.op == OConst:
		if a.b.k >= uint64(w) {
			return c.Const(w, 0)
		}
		return c.Bin(OShl, c.Extract(a.a, hi, 0), c.Const(w, a.b.k))
	case (a.op == OBor || a.op == OBand || a.op == OBxor):
		return c.Bin(a.op, c.Extract(a.a, hi, lo), c.Extract(a.b, hi, lo))
	case a.op == OLshr && a.b.op == OConst:
		nhi, nlo := uint64(hi)+a.b.k, uint64(lo)+a.b.k
		if nhi < uint64(a.w) {
			return c.Extract(a.a, uint8(nhi), uint8(nlo))
		}
	case a.op == OShl && a.b.op == OConst && uint64(lo) >= a.b.k:
		return c.Extract(a.a, hi-uint8(a.b.k), lo-uint8(a.b.k))
	case a.op == OShl && a.b.op == OConst && uint64(hi) < a.b.k:
		return c.Const(w, 0)
	}
	key := termKey{op: OExtract, w: w, hi: hi, lo: lo, a: a.id}
	if t, ok := c.tab[key]; ok {
		return t
	}
	t := c.newTerm(Term{op: OExtract, w: w, hi: hi, lo: lo, a: a})
	c.tab[key] = t
	return t
}

// Model maps variable names to values; missing means 0.
type Model map[string]uint64

// eval evaluates t under m. c.evGen must have been bumped for a new model.
func (c *Ctx) eval(t *Term, m Model) uint64 {
	if t.op == OConst {
		return t.k
	}
	if t.evGen == c.evGen {
		return t.ev
	}
	var r uint64
	switch t.op {
	case OVar:
		r = m[t.name]
		if t.w > 0 {
			r &= mask(t.w)
		}
	case OUF:
		var sb strings.Builder
		sb.WriteString(t.name)
		for _, a := range t.args {
			fmt.Fprintf(&sb, ",%d", c.eval(a, m))
		}
		// deterministic interpretation: FNV of the application
		h := uint64(14695981039346656037)
		for i := 0; i < sb.Len(); i++ {
			h ^= uint64(sb.String()[i])
			h *= 1099511628211
		}
		r = (h ^ h>>29 ^ h>>47) & mask(t.w)
	case ONot:
		r = 1 - c.eval(t.a, m)
	case OAnd:
		r = c.eval(t.a, m) & c.eval(t.b, m)
	case OOr:
		r = c.eval(t.a, m) | c.eval(t.b, m)
	case OEq:
		if c.eval(t.a, m) == c.eval(t.b, m) {
			r = 1
		}
	case OIte:
		if c.eval(t.a, m) == 1 {
			r = c.eval(t.b, m)
		} else {
			r = c.eval(t.c, m)
		}
	case OUlt:
		if c.eval(t.a, m) < c.eval(t.b, m) {
			r = 1
		}
	case OUle:
		if c.eval(t.a, m) <= c.eval(t.b, m) {
			r = 1
		}
	case OSlt:
		if sext64(c.eval(t.a, m), t.a.w) < sext64(c.eval(t.b, m), t.b.w) {
			r = 1
		}
	case OSle:
		if sext64(c.eval(t.a, m), t.a.w) <= sext64(c.eval(t.b, m), t.b.w) {
			r = 1
		}
	case ONeg:
		r = -c.eval(t.a, m) & mask(t.w)
	case OBnot:
		r = ^c.eval(t.a, m) & mask(t.w)
	case OConcat:
		r = c.eval(t.a, m)<<t.b.w | c.eval(t.b, m)
	case OExtract:
		r = (c.eval(t.a, m) >> t.lo) & mask(t.w)
	case OZext:
		r = c.eval(t.a, m)
	case OSext:
		r = uint64(sext64(c.eval(t.a, m), t.a.w)) & mask(t.w)
	default:
		r = evalBin(t.op, t.w, c.eval(t.a, m), c.eval(t.b, m))
	}
	t.ev = r
	t.evGen = c.evGen
	return r
}

// sort returns the SMT-LIB sort of t.
func smtSort(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func smtConst(t *Term) string {
	if t.w == 0 {
		if t.k == 1 {
			return "true"
		}
		return "false"
	}
	if t.w%4 == 0 {
		return fmt.Sprintf("#x%0*x", t.w/4, t.k)
	}
	return fmt.Sprintf("#b%0*b", t.w, t.k)
}

func (t *Term) String() string { return t.str(0) }
func (t *Term) str(d int) string {
	if d > 8 {
		return "..."
	}
	switch t.op {
	case OConst:
		return smtConst(t)
	case OVar:
		return "|" + t.name + "|"
	case OUF:
		return t.name + "(..)"
	case OExtract:
		return fmt.Sprintf("(extract %d %d %s)", t.hi, t.lo, t.a.str(d+1))
	case OZext:
		return fmt.Sprintf("(zext%d %s)", t.w, t.a.str(d+1))
	case OSext:
		return fmt.Sprintf("(sext%d %s)", t.w, t.a.str(d+1))
	}
	s := "(" + opNames[t.op]
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			s += " " + x.str(d+1)
		}
	}
	return s + ")"
}

type engineErr struct{ msg string }

func (e engineErr) Error() string { return e.msg }
