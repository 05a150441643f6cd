package main

import (
	"fmt"
	"strconv"
)

// hashKey returns an index key for fully concrete keys.
func (w *Worker) hashKey(v Value) (string, bool) {
	switch x := v.(type) {
	case *Term:
		if x.isConst() {
			return "t" + strconv.FormatUint(x.k, 16), true
		}
		return "", false
	case *Str:
		if s, ok := w.strConc(x); ok {
			return "s" + s, true
		}
		return "", false
	case FloatV:
		if x.sym == nil {
			return fmt.Sprintf("f%v", x.f), true
		}
		return "", false
	case Iface:
		if x.t == nil {
			return "nil", true
		}
		k, ok := w.hashKey(x.v)
		return fmt.Sprintf("i%p|%s", x.t, k), ok
	case *Value, *ChanObj, *MapObj:
		return fmt.Sprintf("p%p", x), true
	case UPtr:
		return w.hashKey(x.p)
	case *StructV:
		r := "{"
		for _, f := range x.f {
			k, ok := w.hashKey(f)
			if !ok {
				return "", false
			}
			r += strconv.Itoa(len(k)) + ":" + k
		}
		return r, true
	case *TermArr:
		r := "["
		for i := 0; i < x.n; i++ {
			t := x.get(i)
			if !t.isConst() {
				return "", false
			}
			r += strconv.FormatUint(t.k, 16) + ","
		}
		return r, true
	}
	return "", false
}

func (w *Worker) mapFind(m *MapObj, key Value) int {
	if m.live == 0 {
		return -1
	}
	k, conc := w.hashKey(key)
	if conc {
		if i, ok := m.idx[k]; ok {
			return i
		}
		if m.nsym == 0 {
			return -1
		}
	}
	for i := range m.keys {
		if m.del[i] {
			continue
		}
		if conc {
			if _, ok := w.hashKey(m.keys[i]); ok {
				continue
			}
		}
		e := w.eqVal(m.keys[i], key)
		if e.isFalse() {
			continue
		}
		if e.isTrue() || w.branch(e) {
			return i
		}
	}
	return -1
}

func (w *Worker) mapGet(m *MapObj, key Value) *Value {
	i := w.mapFind(m, key)
	if i < 0 {
		return nil
	}
	return m.vals[i]
}

func (w *Worker) mapSet(m *MapObj, key, val Value) {
	if w.spec > 0 {
		panic(specAbort{"mapset"})
	}
	if i := w.mapFind(m, key); i >= 0 {
		w.set(m.vals[i], w.copyVal(val))
		return
	}
	p := new(Value)
	*p = w.copyVal(val)
	i := len(m.keys)
	m.keys = append(m.keys, w.copyVal(key))
	m.vals = append(m.vals, p)
	m.del = append(m.del, false)
	m.live++
	k, conc := w.hashKey(key)
	if conc {
		m.idx[k] = i
	} else {
		m.nsym++
	}
	w.undo(func() {
		m.keys, m.vals, m.del = m.keys[:i], m.vals[:i], m.del[:i]
		m.live--
		if conc {
			delete(m.idx, k)
		} else {
			m.nsym--
		}
	})
}

func (w *Worker) mapDelete(m *MapObj, key Value) {
	if w.spec > 0 {
		panic(specAbort{"mapdelete"})
	}
	if i := w.mapFind(m, key); i >= 0 {
		w.mapDelIdx(m, i)
	}
}

func (w *Worker) mapDelIdx(m *MapObj, i int) {
	k, conc := w.hashKey(m.keys[i])
	m.del[i] = true
	m.live--
	if conc {
		delete(m.idx, k)
	} else {
		m.nsym--
	}
	w.undo(func() {
		m.del[i] = false
		m.live++
		if conc {
			m.idx[k] = i
		} else {
			m.nsym++
		}
	})
}
