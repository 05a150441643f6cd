package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// SatResult of one query.
type SatResult int

const (
	Unsat SatResult = iota
	Sat
	Unknown
)

func (r SatResult) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

// Solver drives one incremental SMT solver process.
type Solver struct {
	c         *Ctx
	bin       string
	argv      []string
	cmd       *exec.Cmd
	in        io.WriteCloser
	out       *bufio.Reader
	gen       uint32
	defs      int
	ufDef     map[string]bool
	cache     map[string]cacheEnt
	Queries   int64
	CacheHits int64
	ByteQ     int64 // conditions on a single byte, decided for all 256 values
	Unknowns  int64
	Time      time.Duration
	timeoutMS int
	Errors    []string
}

type cacheEnt struct {
	r SatResult
	m Model
}

func NewSolver(c *Ctx, bin string, argv ...string) *Solver {
	s := &Solver{c: c, bin: bin, argv: argv, cache: map[string]cacheEnt{}, timeoutMS: 30000}
	return s
}

func (s *Solver) start() {
	s.stop()
	cmd := exec.Command(s.bin, s.argv...)
	in, err := cmd.StdinPipe()
	if err != nil {
		panic(engineErr{"solver: " + err.Error()})
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		panic(engineErr{"solver: " + err.Error()})
	}
	cmd.Stderr = os.Stderr
	if err := cmd.Start(); err != nil {
		panic(engineErr{"solver: " + err.Error()})
	}
	liveMu.Lock()
	live[cmd.Process] = true
	liveMu.Unlock()
	s.cmd, s.in, s.out = cmd, in, bufio.NewReaderSize(out, 1<<16)
	s.gen++
	s.defs = 0
	s.ufDef = map[string]bool{}
	if strings.Contains(s.bin, "z3") {
		fmt.Fprintf(in, "(set-option :global-declarations true)\n(set-option :timeout %d)\n(set-option :produce-models true)\n(set-logic ALL)\n", s.timeoutMS)
	} else {
		fmt.Fprintf(in, "(set-option :global-declarations true)\n(set-option :produce-models true)\n(set-logic QF_UFBV)\n")
	}
}

func (s *Solver) stop() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		liveMu.Lock()
		delete(live, s.cmd.Process)
		liveMu.Unlock()
		s.cmd = nil
	}
}

// solver processes, none of which is to outlive the check
var (
	liveMu sync.Mutex
	live   = map[*os.Process]bool{}
)

func killSolvers() {
	liveMu.Lock()
	for p := range live {
		p.Kill()
	}
	liveMu.Unlock()
}

func (s *Solver) ref(t *Term) string {
	switch t.op {
	case OConst:
		return smtConst(t)
	case OVar:
		return "v" + strconv.Itoa(int(t.varID))
	}
	return "t" + strconv.Itoa(int(t.id))
}

func (s *Solver) define(sb *strings.Builder, t *Term) {
	if t.op == OConst || t.defGen == s.gen {
		return
	}
	// iterative post-order to avoid deep recursion
	type ent struct {
		t *Term
		x bool
	}
	st := []ent{{t, false}}
	for len(st) > 0 {
		e := st[len(st)-1]
		st = st[:len(st)-1]
		if e.t.op == OConst || e.t.defGen == s.gen {
			continue
		}
		if !e.x {
			st = append(st, ent{e.t, true})
			for _, x := range []*Term{e.t.a, e.t.b, e.t.c} {
				if x != nil {
					st = append(st, ent{x, false})
				}
			}
			for _, x := range e.t.args {
				st = append(st, ent{x, false})
			}
			continue
		}
		u := e.t
		u.defGen = s.gen
		s.defs++
		if u.op == OVar {
			fmt.Fprintf(sb, "(declare-const v%d %s)\n", u.varID, smtSort(u.w))
			continue
		}
		fmt.Fprintf(sb, "(define-fun t%d () %s ", u.id, smtSort(u.w))
		switch u.op {
		case OUF:
			if !s.ufDef[u.name] {
				s.ufDef[u.name] = true
				// must precede the define-fun: emit in place by rewriting
				cur := sb.String()
				i := strings.LastIndex(cur, "(define-fun ")
				sb.Reset()
				sb.WriteString(cur[:i])
				fmt.Fprintf(sb, "(declare-fun %s (", u.name)
				for _, a := range u.args {
					sb.WriteString(smtSort(a.w) + " ")
				}
				fmt.Fprintf(sb, ") %s)\n", smtSort(u.w))
				sb.WriteString(cur[i:])
			}
			if len(u.args) == 0 {
				sb.WriteString(u.name)
			} else {
				sb.WriteString("(" + u.name)
				for _, a := range u.args {
					sb.WriteString(" " + s.ref(a))
				}
				sb.WriteString(")")
			}
		case OExtract:
			fmt.Fprintf(sb, "((_ extract %d %d) %s)", u.hi, u.lo, s.ref(u.a))
		case OZext:
			fmt.Fprintf(sb, "((_ zero_extend %d) %s)", u.w-u.a.w, s.ref(u.a))
		case OSext:
			fmt.Fprintf(sb, "((_ sign_extend %d) %s)", u.w-u.a.w, s.ref(u.a))
		default:
			sb.WriteString("(" + opNames[u.op])
			for _, x := range []*Term{u.a, u.b, u.c} {
				if x != nil {
					sb.WriteString(" " + s.ref(x))
				}
			}
			sb.WriteString(")")
		}
		sb.WriteString(")\n")
	}
}

// Check decides the conjunction of conds. On Sat the model covers the variables of conds.
func (s *Solver) Check(conds []*Term) (SatResult, Model) {
	ids := make([]int, 0, len(conds))
	var vars []uint64
	for _, t := range conds {
		if t.isFalse() {
			return Unsat, nil
		}
		if t.isTrue() {
			continue
		}
		ids = append(ids, int(t.id))
		vars = unionVars(vars, t.vars)
	}
	if len(ids) == 0 {
		return Sat, Model{}
	}
	sort.Ints(ids)
	var kb strings.Builder
	last := -1
	for _, i := range ids {
		if i != last {
			kb.WriteString(strconv.Itoa(i))
			kb.WriteByte(',')
		}
		last = i
	}
	key := kb.String()
	if e, ok := s.cache[key]; ok {
		s.CacheHits++
		return e.r, e.m
	}
	if s.cmd == nil || s.defs > 400000 {
		s.start()
	}
	t0 := time.Now()
	var sb strings.Builder
	for _, t := range conds {
		s.define(&sb, t)
	}
	sb.WriteString("(push 1)\n")
	for _, t := range conds {
		if !t.isTrue() {
			sb.WriteString("(assert " + s.ref(t) + ")\n")
		}
	}
	sb.WriteString("(check-sat)\n")
	if os.Getenv("SYM_SMTLOG") != "" {
		f, _ := os.OpenFile(os.Getenv("SYM_SMTLOG"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
		f.WriteString(sb.String())
		f.Close()
	}
	io.WriteString(s.in, sb.String())
	line := s.readLine()
	s.Queries++
	var r SatResult
	var m Model
	switch line {
	case "unsat":
		r = Unsat
	case "sat":
		r = Sat
		m = Model{}
		var vs []*Term
		for i, w := range vars {
			for b := 0; b < 64; b++ {
				if w&(1<<uint(b)) != 0 {
					vs = append(vs, s.c.vars[i*64+b])
				}
			}
		}
		if len(vs) > 0 {
			var q strings.Builder
			q.WriteString("(get-value (")
			for _, v := range vs {
				q.WriteString(s.ref(v) + " ")
			}
			q.WriteString("))\n")
			io.WriteString(s.in, q.String())
			s.parseModel(vs, m)
		}
	default:
		r = Unknown
		s.Unknowns++
		if strings.HasPrefix(line, "(error") {
			s.Errors = append(s.Errors, line)
			fmt.Fprintln(os.Stderr, "solver error:", line)
			s.stop()
			s.Time += time.Since(t0)
			return Unknown, nil
		}
	}
	io.WriteString(s.in, "(pop 1)\n")
	s.Time += time.Since(t0)
	if r != Unknown {
		s.cache[key] = cacheEnt{r, m}
	}
	return r, m
}

func (s *Solver) readLine() string {
	l, err := s.out.ReadString('\n')
	if err != nil {
		return "(error solver died: " + err.Error() + ")"
	}
	return strings.TrimSpace(l)
}

func (s *Solver) parseModel(vs []*Term, m Model) {
	// read a balanced s-expression
	var sb strings.Builder
	depth := 0
	started := false
	for {
		l := s.readLine()
		if strings.HasPrefix(l, "(error") {
			panic(engineErr{"get-value: " + l})
		}
		for _, ch := range l {
			if ch == '(' {
				depth++
				started = true
			} else if ch == ')' {
				depth--
			}
		}
		sb.WriteString(l + " ")
		if started && depth <= 0 {
			break
		}
	}
	txt := sb.String()
	toks := strings.FieldsFunc(txt, func(r rune) bool { return r == '(' || r == ')' || r == ' ' })
	for i := 0; i+1 < len(toks); i += 2 {
		id, err := strconv.Atoi(strings.TrimPrefix(toks[i], "v"))
		if err != nil {
			panic(engineErr{"bad model: " + txt})
		}
		v := s.c.vars[id]
		m[v.name] = parseSMTVal(toks[i+1])
	}
}

func parseSMTVal(t string) uint64 {
	switch {
	case t == "true":
		return 1
	case t == "false":
		return 0
	case strings.HasPrefix(t, "#x"):
		v, _ := strconv.ParseUint(t[2:], 16, 64)
		return v
	case strings.HasPrefix(t, "#b"):
		v, _ := strconv.ParseUint(t[2:], 2, 64)
		return v
	}
	panic(engineErr{"bad value " + t})
}
