// Package vmodel holds models that the symbolic engine substitutes for a few
// standard library functions whose own code needs reflection or assembly.
package vmodel

import (
	"bufio"
	"context"
	"errors"
	"io"
	"net"
	"net/http"
	"net/url"
	"strconv"
	"sync"

	"github.com/gorilla/websocket"
)

// scanIndexRune is fmt.indexRune for the ASCII sets of digits and signs fmt has.
func scanIndexRune(s string, r rune) int {
	n := int32(-1)
	for i := len(s) - 1; i >= 0; i-- {
		if rune(s[i]) == r {
			n = int32(i)
		}
	}
	return int(n)
}

// wsNewConn stands for websocket.newConn.
func wsNewConn(conn net.Conn, isServer bool, readBufferSize, writeBufferSize int, pool websocket.BufferPool, br *bufio.Reader, writeBuf []byte) *websocket.Conn {
	return nil
}

// WSDial is a WebSocket handshake that succeeds once the transport is there.
func WSDial(d *websocket.Dialer, urlStr string, h http.Header) (*websocket.Conn, *http.Response, error) {
	return WSDialContext(d, nil, urlStr, h)
}

// WSDialContext is the same with a context.
func WSDialContext(d *websocket.Dialer, ctx context.Context, urlStr string, h http.Header) (*websocket.Conn, *http.Response, error) {
	u, err := url.Parse(urlStr)
	if err != nil {
		return nil, nil, err
	}
	host := u.Host
	if u.Port() == "" {
		host += ":80"
	}
	if u.Scheme == "wss" {
		unmodelled("WebSocket over TLS")
	}
	if u.Scheme != "ws" || u.User != nil {
		return nil, nil, errors.New("malformed ws or wss URL")
	}
	var c net.Conn
	if d.NetDial != nil {
		c, err = d.NetDial("tcp", host)
	} else if d.NetDialContext != nil {
		c, err = d.NetDialContext(ctx, "tcp", host)
	} else {
		c, err = net.DialTimeout("tcp", host, d.HandshakeTimeout)
	}
	if err != nil {
		return nil, nil, err
	}
	return wsNewConn(c, false, d.ReadBufferSize, d.WriteBufferSize, nil, nil, nil), &http.Response{StatusCode: 101}, nil
}

// WSMask applies the mask of a frame.
func WSMask(key [4]byte, pos int, b []byte) int {
	for i := range b {
		b[i] ^= key[pos&3]
		pos++
	}
	return pos & 3
}

// RuntimeErr is the dynamic type of run-time panics in the symbolic run.
type RuntimeErr string

func (e RuntimeErr) Error() string { return string(e) }
func (e RuntimeErr) RuntimeError() {}

func goCall(f func()) { f() }

// errAs stores err in the variable target points to if its type is the variable's.
func errAs(err error, target interface{}) bool { return false }

// ErrorsAs models errors.As.
func ErrorsAs(err error, target interface{}) bool {
	if err == nil {
		return false
	}
	if target == nil {
		panic("errors: target cannot be nil")
	}
	for {
		if errAs(err, target) {
			return true
		}
		if x, ok := err.(interface{ As(interface{}) bool }); ok && x.As(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
			if err == nil {
				return false
			}
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if e != nil && ErrorsAs(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}

func comparableErr(err error) bool { return true }

// ErrorsIs models errors.Is.
func ErrorsIs(err, target error) bool {
	if err == nil || target == nil {
		return err == target
	}
	for {
		if comparableErr(target) && comparableErr(err) && err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
			if err == nil {
				return false
			}
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if e != nil && ErrorsIs(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}

var syncMaps map[*sync.Map]map[interface{}]interface{}

func syncMap(m *sync.Map) map[interface{}]interface{} {
	if syncMaps == nil {
		syncMaps = map[*sync.Map]map[interface{}]interface{}{}
	}
	if syncMaps[m] == nil {
		syncMaps[m] = map[interface{}]interface{}{}
	}
	return syncMaps[m]
}

// SyncMapLoad and the like model sync.Map.
func SyncMapLoad(m *sync.Map, k interface{}) (interface{}, bool) {
	v, ok := syncMap(m)[k]
	return v, ok
}
func SyncMapStore(m *sync.Map, k, v interface{}) { syncMap(m)[k] = v }
func SyncMapDelete(m *sync.Map, k interface{})   { delete(syncMap(m), k) }
func SyncMapLoadOrStore(m *sync.Map, k, v interface{}) (interface{}, bool) {
	x := syncMap(m)
	if o, ok := x[k]; ok {
		return o, true
	}
	x[k] = v
	return v, false
}
func SyncMapLoadAndDelete(m *sync.Map, k interface{}) (interface{}, bool) {
	x := syncMap(m)
	v, ok := x[k]
	delete(x, k)
	return v, ok
}
func SyncMapSwap(m *sync.Map, k, v interface{}) (interface{}, bool) {
	x := syncMap(m)
	o, ok := x[k]
	x[k] = v
	return o, ok
}
func SyncMapCompareAndSwap(m *sync.Map, k, old, v interface{}) bool {
	x := syncMap(m)
	if o, ok := x[k]; !ok || o != old {
		return false
	}
	x[k] = v
	return true
}
func SyncMapRange(m *sync.Map, f func(k, v interface{}) bool) {
	for k, v := range syncMap(m) {
		if !f(k, v) {
			return
		}
	}
}
func SyncMapClear(m *sync.Map) {
	x := syncMap(m)
	for k := range x {
		delete(x, k)
	}
}

type stringer interface{ String() string }

func anyKind(v interface{}) (int, int64, string) { return 0, 0, "" }
func anyFloat(v interface{}) (float64, int)      { return 0, 0 }
func floatAsInt(f float64) (int, bool)           { return 0, false }
func typeName(v interface{}) string              { return "" }
func unmodelled(s string)                        {}
func digits(x uint64, n int) []byte              { return nil }
func md5raw(b []byte) [16]byte                   { return [16]byte{} }

// SortSlice is a stable insertion sort.
func SortSlice(n int, less func(i, j int) bool, swap func(i, j int)) {
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			swap(j, j-1)
		}
	}
}

type md5hash struct{ b []byte }

func (h *md5hash) Write(p []byte) (int, error)       { h.b = append(h.b, p...); return len(p), nil }
func (h *md5hash) WriteString(p string) (int, error) { h.b = append(h.b, p...); return len(p), nil }
func (h *md5hash) Sum(in []byte) []byte {
	s := md5raw(h.b)
	return append(in, s[:]...)
}
func (h *md5hash) Reset()         { h.b = nil }
func (h *md5hash) Size() int      { return 16 }
func (h *md5hash) BlockSize() int { return 64 }

type hash interface {
	io.Writer
	Sum(b []byte) []byte
	Reset()
	Size() int
	BlockSize() int
}

// MD5New models crypto/md5.New.
func MD5New() hash { return &md5hash{} }

// MD5Sum models crypto/md5.Sum.
func MD5Sum(b []byte) [16]byte { return md5raw(b) }

type fmtErr struct {
	s string
	e error
}

func (e *fmtErr) Error() string { return e.s }
func (e *fmtErr) Unwrap() error { return e.e }

// Errorf models fmt.Errorf.
func Errorf(format string, a ...interface{}) error {
	e := &fmtErr{}
	for _, x := range a {
		if xe, ok := x.(error); ok {
			e.e = xe
		}
	}
	e.s = Sprintf(format, a...)
	return e
}

// Sprintf models fmt.Sprintf.
func Sprintf(format string, a ...interface{}) string { return string(doFormat(nil, format, a)) }

// Appendf models fmt.Appendf.
func Appendf(b []byte, format string, a ...interface{}) []byte { return doFormat(b, format, a) }

// Fprintf models fmt.Fprintf.
func Fprintf(w io.Writer, format string, a ...interface{}) (int, error) {
	return w.Write(doFormat(nil, format, a))
}

// Sprint models fmt.Sprint.
func Sprint(a ...interface{}) string {
	var b []byte
	prev := false
	for i, x := range a {
		k, _, _ := anyKind(x)
		isStr := k == 4
		if i > 0 && !isStr && !prev {
			b = append(b, ' ')
		}
		b = append(b, verb('v', x, spec{prec: -1})...)
		prev = isStr
	}
	return string(b)
}

// Sprintln models fmt.Sprintln.
func Sprintln(a ...interface{}) string {
	var b []byte
	for i, x := range a {
		if i > 0 {
			b = append(b, ' ')
		}
		b = append(b, verb('v', x, spec{prec: -1})...)
	}
	return string(append(b, '\n'))
}

// Append models fmt.Append, Appendln fmt.Appendln.
func Append(b []byte, a ...interface{}) []byte   { return append(b, Sprint(a...)...) }
func Appendln(b []byte, a ...interface{}) []byte { return append(b, Sprintln(a...)...) }

// Fprint models fmt.Fprint.
func Fprint(w io.Writer, a ...interface{}) (int, error) { return w.Write([]byte(Sprint(a...))) }

// Fprintln models fmt.Fprintln.
func Fprintln(w io.Writer, a ...interface{}) (int, error) { return w.Write([]byte(Sprintln(a...))) }

type spec struct {
	plus, minus, sharp, space, zero bool
	width, prec                     int
	hasW                            bool
}

func doFormat(b []byte, format string, a []interface{}) []byte {
	n := 0
	for i := 0; i < len(format); {
		c := format[i]
		i++
		if c != '%' {
			b = append(b, c)
			continue
		}
		sp := spec{prec: -1}
	flags:
		for i < len(format) {
			switch format[i] {
			case '+':
				sp.plus = true
			case '-':
				sp.minus = true
			case '#':
				sp.sharp = true
			case ' ':
				sp.space = true
			case '0':
				sp.zero = true
			default:
				break flags
			}
			i++
		}
		if i < len(format) && format[i] == '*' && n < len(a) {
			if w, ok := a[n].(int); ok && w >= 0 {
				sp.width, sp.hasW = w, true
				i++
				n++
			}
		}
		for i < len(format) && format[i] >= '0' && format[i] <= '9' {
			sp.width = sp.width*10 + int(format[i]-'0')
			sp.hasW = true
			i++
		}
		if i < len(format) && format[i] == '.' {
			i++
			sp.prec = 0
			for i < len(format) && format[i] >= '0' && format[i] <= '9' {
				sp.prec = sp.prec*10 + int(format[i]-'0')
				i++
			}
		}
		if i >= len(format) {
			b = append(b, "%!(NOVERB)"...)
			break
		}
		v := format[i]
		i++
		if v == '%' {
			b = append(b, '%')
			continue
		}
		if v == '*' || v == '[' || v >= 0x80 {
			unmodelled("format verb")
		}
		if n >= len(a) {
			b = append(b, '%', '!', v)
			b = append(b, "(MISSING)"...)
			continue
		}
		b = append(b, verb(v, a[n], sp)...)
		n++
	}
	if n < len(a) {
		b = append(b, "%!(EXTRA "...)
		for i, x := range a[n:] {
			if i > 0 {
				b = append(b, ", "...)
			}
			if x == nil {
				b = append(b, "<nil>"...)
				continue
			}
			b = append(b, typeName(x)...)
			b = append(b, '=')
			b = append(b, verb('v', x, spec{prec: -1})...)
		}
		b = append(b, ')')
	}
	return b
}

func pad(b []byte, sp spec) []byte {
	if sp.width <= len(b) {
		return b
	}
	var f []byte
	for k := len(b); k < sp.width; k++ {
		f = append(f, ' ')
	}
	if sp.minus {
		return append(append([]byte(nil), b...), f...)
	}
	return append(f, b...)
}

func hexOf(s string, up bool) []byte {
	d := "0123456789abcdef"
	if up {
		d = "0123456789ABCDEF"
	}
	var b []byte
	for i := 0; i < len(s); i++ {
		b = append(b, d[s[i]>>4], d[s[i]&15])
	}
	return b
}

func badVerb(v byte, x interface{}) []byte {
	unmodelled("format verb for this operand")
	return nil
}

func verb(v byte, x interface{}, sp spec) []byte {
	if v == 'T' {
		return pad([]byte(typeName(x)), sp)
	}
	if x == nil {
		if v == 'v' {
			return pad([]byte("<nil>"), sp)
		}
		return []byte("%!" + string(rune(v)) + "(<nil>)")
	}
	if v == 'w' {
		v = 'v'
	}
	if v == 'v' || v == 's' || v == 'q' || v == 'x' || v == 'X' {
		if !(v == 'v' && sp.sharp) {
			if e, ok := x.(error); ok {
				return verbStr(v, e.Error(), sp)
			}
			if e, ok := x.(stringer); ok {
				return verbStr(v, e.String(), sp)
			}
		}
	}
	k, n, s := anyKind(x)
	switch k {
	case 1, 2:
		return verbInt(v, n, k == 2, sp, x)
	case 3:
		if v == 'v' || v == 't' {
			if n != 0 {
				return pad([]byte("true"), sp)
			}
			return pad([]byte("false"), sp)
		}
	case 4:
		return verbStr(v, s, sp)
	case 5:
		if v == 's' || v == 'x' || v == 'X' || v == 'q' {
			return verbStr(v, s, sp)
		}
	case 6:
		f, bits := anyFloat(x)
		return verbFloat(v, f, bits, sp, x)
	}
	if v == 'v' || v == 'd' || v == 's' || v == 'x' || v == 'q' {
		var l []interface{}
		ok := true
		switch y := x.(type) {
		case []byte:
			for _, e := range y {
				l = append(l, e)
			}
		case []string:
			for _, e := range y {
				l = append(l, e)
			}
		case []int:
			for _, e := range y {
				l = append(l, e)
			}
		case []interface{}:
			l = y
		case []error:
			for _, e := range y {
				l = append(l, e)
			}
		default:
			ok = false
		}
		if ok && !sp.sharp && !sp.plus {
			b := []byte{'['}
			for i, e := range l {
				if i > 0 {
					b = append(b, ' ')
				}
				b = append(b, verb(v, e, sp)...)
			}
			return append(b, ']')
		}
	}
	if k == 3 {
		t := "false"
		if n != 0 {
			t = "true"
		}
		return []byte("%!" + string(rune(v)) + "(" + typeName(x) + "=" + t + ")")
	}
	return badVerb(v, x)
}

func verbStr(v byte, s string, sp spec) []byte {
	switch v {
	case 'v', 's':
		if sp.prec >= 0 && sp.prec < len(s) {
			s = s[:sp.prec]
		}
		return pad([]byte(s), sp)
	case 'x':
		return pad(hexOf(s, false), sp)
	case 'X':
		return pad(hexOf(s, true), sp)
	case 'q':
		return pad([]byte(strconv.Quote(s)), sp)
	case 'd':
		if len(s) == 0 {
			return []byte("%!d(string=)")
		}
	}
	return []byte("%!" + string(rune(v)) + "(string=" + s + ")")
}

func verbInt(v byte, n int64, unsigned bool, sp spec, x interface{}) []byte {
	base := 10
	up := false
	switch v {
	case 'd', 'v':
	case 'x':
		base = 16
	case 'X':
		base = 16
		up = true
	case 'b':
		base = 2
	case 'o':
		base = 8
	case 'c':
		return pad([]byte(string(rune(n))), sp)
	case 'q':
		return pad([]byte(strconv.QuoteRune(rune(n))), sp)
	case 's', 't', 'f', 'g', 'e':
		return []byte("%!" + string(rune(v)) + "(" + typeName(x) + "=" + string(verbInt('d', n, unsigned, spec{prec: -1}, x)) + ")")
	case 'U':
		return badVerb(v, x)
	default:
		return badVerb(v, x)
	}
	neg := false
	var b []byte
	if unsigned {
		b = AppendUint(nil, uint64(n), base)
	} else {
		if n < 0 {
			neg = true
			b = AppendUint(nil, uint64(-n), base)
		} else {
			b = AppendUint(nil, uint64(n), base)
		}
	}
	if up {
		for i := range b {
			if b[i] >= 'a' && b[i] <= 'z' {
				b[i] -= 32
			}
		}
	}
	for sp.prec > len(b) {
		b = append([]byte{'0'}, b...)
	}
	sign := byte(0)
	if neg {
		sign = '-'
	} else if sp.plus {
		sign = '+'
	} else if sp.space {
		sign = ' '
	}
	if sp.zero && !sp.minus && sp.prec < 0 {
		w := sp.width
		if sign != 0 {
			w--
		}
		for len(b) < w {
			b = append([]byte{'0'}, b...)
		}
	}
	if sp.sharp && base == 16 {
		if up {
			b = append([]byte("0X"), b...)
		} else {
			b = append([]byte("0x"), b...)
		}
	}
	if sign != 0 {
		b = append([]byte{sign}, b...)
	}
	return pad(b, sp)
}

func verbFloat(v byte, f float64, bits int, sp spec, x interface{}) []byte {
	if n, ok := floatAsInt(f); ok {
		if v == 'f' || v == 'F' {
			b := AppendInt(nil, int64(n), 10)
			p := sp.prec
			if p < 0 {
				p = 6
			}
			if p > 0 {
				b = append(b, '.')
				for i := 0; i < p; i++ {
					b = append(b, '0')
				}
			}
			return pad(b, sp)
		}
		if n > -1000 && n < 1000 && (v == 'v' || v == 'g') && sp.prec < 0 {
			return pad(AppendInt(nil, int64(n), 10), sp)
		}
		unmodelled("format of symbolic float")
	}
	c := v
	switch v {
	case 'v':
		c = 'g'
	case 'F':
		c = 'f'
	case 'f', 'g', 'e', 'G', 'E':
	case 'd', 's', 'x':
		// what fmt prints for a mismatched verb
		return []byte("%!" + string(rune(v)) + "(" + typeName(x) + "=" + string(strconv.AppendFloat(nil, f, 'g', -1, bits)) + ")")
	default:
		return badVerb(v, x)
	}
	p := sp.prec
	if p < 0 && (c == 'f' || c == 'e' || c == 'E') {
		p = 6
	}
	b := strconv.AppendFloat(nil, f, c, p, bits)
	if v == 'v' {
		// %v uses %g with the shortest form and exponent threshold 21
		b = strconv.AppendFloat(nil, f, 'g', -1, bits)
		for _, ch := range b {
			if ch == 'e' {
				unmodelled("%v of a float with exponent")
			}
		}
	}
	if sp.plus && f >= 0 {
		b = append([]byte{'+'}, b...)
	}
	if sp.zero && !sp.minus {
		var sign []byte
		if len(b) > 0 && (b[0] == '-' || b[0] == '+') {
			sign, b = b[:1:1], b[1:]
		}
		var z []byte
		for len(z)+len(sign)+len(b) < sp.width {
			z = append(z, '0')
		}
		b = append(append(sign, z...), b...)
	}
	return pad(b, sp)
}

// AppendUint, AppendInt and the like write integers without tables: the engine
// introduces the decimal digits of an unknown number as what they are.
func AppendUint(dst []byte, x uint64, base int) []byte {
	if base == 10 {
		n, p := 1, uint64(10)
		for n < 19 && x >= p {
			n++
			p *= 10
		}
		if n < 19 || x < p {
			return append(dst, digits(x, n)...)
		}
	}
	b := uint64(base)
	var buf []byte
	for {
		c := byte(x % b)
		if c < 10 {
			c += '0'
		} else {
			c += 'a' - 10
		}
		buf = append(buf, c)
		x /= b
		if x == 0 {
			break
		}
	}
	for i := len(buf) - 1; i >= 0; i-- {
		dst = append(dst, buf[i])
	}
	return dst
}

func AppendInt(dst []byte, x int64, base int) []byte {
	if x < 0 {
		return AppendUint(append(dst, '-'), uint64(-x), base)
	}
	return AppendUint(dst, uint64(x), base)
}

func FormatInt(x int64, base int) string   { return string(AppendInt(nil, x, base)) }
func FormatUint(x uint64, base int) string { return string(AppendUint(nil, x, base)) }
func Itoa(x int) string                    { return string(AppendInt(nil, int64(x), 10)) }
