package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io/ioutil"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const goRoot = "/opt/veriftools/go1.27.3"

// Setup says what to load.
type Setup struct {
	Repo  string // /repo
	Verif string // /verif
	Prop  string // C01
	Sched bool   // instrument with yield points
}

var pkgDirs = []string{"", "sdp", "tcpnetwork"}

// harnessDir maps a package directory of the repo to the harness directory.
func harnessDir(d string) string {
	if d == "" {
		return "root"
	}
	return d
}

// HarnessFn is one entry point found in the harness files.
type HarnessFn struct {
	Name   string
	Dir    string // package directory below the repo
	Bound  string
	Reach  []string
	Opts   map[string]string
	Expect string
}

var harnessRe = regexp.MustCompile(`(?m)((?://[^\n]*\n)*)^func (VH_(C\d\d)_\w+)\(\)`)

// scanHarness finds the harness functions of a property.
func scanHarness(verif, prop string) (files map[string][]string, fns []HarnessFn, err error) {
	files = map[string][]string{}
	for _, d := range pkgDirs {
		hd := filepath.Join(verif, "harness", harnessDir(d))
		ents, _ := ioutil.ReadDir(hd)
		var common, mine []string
		for _, e := range ents {
			n := e.Name()
			if !strings.HasSuffix(n, ".go") {
				continue
			}
			if strings.HasPrefix(n, "common") {
				common = append(common, filepath.Join(hd, n))
			} else if strings.HasPrefix(n, strings.ToLower(prop)) {
				mine = append(mine, filepath.Join(hd, n))
			}
		}
		if len(mine) == 0 {
			continue
		}
		files[d] = mine
		need := map[string]bool{}
		for _, f := range mine {
			b, e := ioutil.ReadFile(f)
			if e != nil {
				return nil, nil, e
			}
			for _, m := range harnessRe.FindAllStringSubmatch(string(b), -1) {
				if m[3] != prop {
					continue
				}
				h := HarnessFn{Name: m[2], Dir: d, Opts: map[string]string{}}
				for _, l := range strings.Split(m[1], "\n") {
					l = strings.TrimSpace(strings.TrimPrefix(l, "//"))
					switch {
					case strings.HasPrefix(l, "vh:bound "):
						if h.Bound != "" {
							h.Bound += " "
						}
						h.Bound += strings.TrimPrefix(l, "vh:bound ")
					case strings.HasPrefix(l, "vh:reach "):
						h.Reach = append(h.Reach, strings.Fields(strings.TrimPrefix(l, "vh:reach "))...)
					case strings.HasPrefix(l, "vh:opt "):
						for _, kv := range strings.Fields(strings.TrimPrefix(l, "vh:opt ")) {
							if i := strings.Index(kv, "="); i > 0 {
								h.Opts[kv[:i]] = kv[i+1:]
							} else {
								h.Opts[kv] = "1"
							}
						}
					}
				}
				fns = append(fns, h)
			}
			for _, m := range regexp.MustCompile(`(?m)^//vh:use (\S+)`).FindAllStringSubmatch(string(b), -1) {
				need[m[1]] = true
			}
		}
		for _, c := range common {
			base := strings.TrimSuffix(filepath.Base(c), ".go")
			if base == "common" || need[base] {
				files[d] = append(files[d], c)
			}
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].Name < fns[j].Name })
	return files, fns, nil
}

// buildOverlay returns file name -> contents for the symbolic run and the native replay.
func buildOverlay(st Setup) (map[string][]byte, []HarnessFn, error) {
	ov := map[string][]byte{}
	files, fns, err := scanHarness(st.Verif, st.Prop)
	if err != nil {
		return nil, nil, err
	}
	if len(fns) == 0 {
		return nil, nil, fmt.Errorf("no harness for %s", st.Prop)
	}
	for d, fs := range files {
		for _, f := range fs {
			b, err := ioutil.ReadFile(f)
			if err != nil {
				return nil, nil, err
			}
			ov[filepath.Join(st.Repo, d, "zz_vh_"+filepath.Base(f))] = b
		}
	}
	for _, m := range []string{"vsym", "vmodel"} {
		dir := filepath.Join(st.Verif, "overlay", m)
		ents, _ := ioutil.ReadDir(dir)
		for _, e := range ents {
			if strings.HasSuffix(e.Name(), ".go") {
				b, err := ioutil.ReadFile(filepath.Join(dir, e.Name()))
				if err != nil {
					return nil, nil, err
				}
				ov[filepath.Join(st.Repo, "zzv", m, e.Name())] = b
			}
		}
	}
	// dial hook
	dial := filepath.Join(goRoot, "src/net/dial.go")
	b, err := ioutil.ReadFile(dial)
	if err != nil {
		return nil, nil, err
	}
	s := string(b)
	re := regexp.MustCompile(`func \(d \*Dialer\) DialContext\([^{]*\{`)
	loc := re.FindStringIndex(s)
	if loc == nil {
		return nil, nil, fmt.Errorf("net.Dialer.DialContext not found")
	}
	s = s[:loc[1]] + " if ZZDialHook != nil { return ZZDialHook(network, address, d.Timeout) };" + s[loc[1]:] +
		"\n// ZZDialHook replaces dialling in verification runs.\nvar ZZDialHook func(network, address string, timeout time.Duration) (Conn, error)\n"
	ov[dial] = []byte(s)
	if st.Sched {
		for _, d := range pkgDirs {
			if err := instrument(filepath.Join(st.Repo, d), ov); err != nil {
				return nil, nil, err
			}
		}
	}
	return ov, fns, nil
}

// ---- yield-point instrumentation

func instrument(dir string, ov map[string][]byte) error {
	ents, err := ioutil.ReadDir(dir)
	if err != nil {
		return err
	}
	fset := token.NewFileSet()
	type file struct {
		name string
		src  []byte
		f    *ast.File
	}
	var fs []file
	for _, e := range ents {
		n := e.Name()
		if !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		p := filepath.Join(dir, n)
		b, err := ioutil.ReadFile(p)
		if err != nil {
			return err
		}
		f, err := parser.ParseFile(fset, p, b, parser.ParseComments)
		if err != nil {
			return err
		}
		fs = append(fs, file{p, b, f})
	}
	// fields assigned somewhere, and functions started by go statements
	mut := map[string]bool{}
	goFn := map[string]bool{}
	for _, f := range fs {
		ast.Inspect(f.f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.AssignStmt:
				for _, l := range x.Lhs {
					if s, ok := l.(*ast.SelectorExpr); ok {
						mut[s.Sel.Name] = true
					}
				}
			case *ast.IncDecStmt:
				if s, ok := x.X.(*ast.SelectorExpr); ok {
					mut[s.Sel.Name] = true
				}
			case *ast.GoStmt:
				switch c := x.Call.Fun.(type) {
				case *ast.SelectorExpr:
					goFn[c.Sel.Name] = true
				case *ast.Ident:
					goFn[c.Name] = true
				}
			}
			return true
		})
	}
	for _, f := range fs {
		type ins struct {
			off int
			txt string
		}
		var edits []ins
		seen := map[int]bool{}
		add := func(pos token.Pos, pre, post string) {
			p := fset.Position(pos)
			if seen[p.Offset] {
				return
			}
			seen[p.Offset] = true
			id := filepath.Base(f.name) + ":" + strconv.Itoa(p.Line) + ":" + strconv.Itoa(p.Column)
			edits = append(edits, ins{p.Offset, pre + "zzvsym.Yield(" + strconv.Quote(id) + ")" + post})
		}
		var stmts func(l []ast.Stmt)
		interesting := func(n ast.Node) bool {
			hit := false
			ast.Inspect(n, func(x ast.Node) bool {
				switch y := x.(type) {
				case *ast.FuncLit, *ast.BlockStmt:
					return false
				case *ast.SendStmt, *ast.SelectStmt:
					hit = true
				case *ast.UnaryExpr:
					if y.Op == token.ARROW {
						hit = true
					}
				case *ast.CallExpr:
					switch c := y.Fun.(type) {
					case *ast.Ident:
						if c.Name == "close" {
							hit = true
						}
					case *ast.SelectorExpr:
						switch c.Sel.Name {
						case "Lock", "Unlock", "RLock", "RUnlock", "Close", "Wait":
							hit = true
						}
						if id, ok := c.X.(*ast.Ident); ok && id.Name == "atomic" {
							hit = true
						}
					}
				case *ast.SelectorExpr:
					if mut[y.Sel.Name] {
						hit = true
					}
				}
				return true
			})
			return hit
		}
		stmts = func(l []ast.Stmt) {
			for _, s := range l {
				t := s
				if lb, ok := s.(*ast.LabeledStmt); ok {
					t = lb.Stmt
				}
				switch t.(type) {
				case *ast.DeclStmt, *ast.EmptyStmt, *ast.BranchStmt, *ast.CaseClause, *ast.CommClause:
					continue
				}
				if interesting(t) {
					add(s.Pos(), "", "; ")
				}
			}
		}
		ast.Inspect(f.f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BlockStmt:
				stmts(x.List)
			case *ast.CaseClause:
				stmts(x.Body)
			case *ast.CommClause:
				stmts(x.Body)
			case *ast.FuncDecl:
				if x.Body != nil && goFn[x.Name.Name] && len(x.Body.List) > 0 {
					add(x.Body.List[0].Pos(), "", "; ")
				}
			case *ast.GoStmt:
				if fl, ok := x.Call.Fun.(*ast.FuncLit); ok && len(fl.Body.List) > 0 {
					add(fl.Body.List[0].Pos(), "", "; ")
				}
			}
			return true
		})
		if len(edits) == 0 {
			continue
		}
		sort.Slice(edits, func(i, j int) bool { return edits[i].off > edits[j].off })
		src := f.src
		for _, e := range edits {
			src = append(src[:e.off:e.off], append([]byte(e.txt), src[e.off:]...)...)
		}
		// import on the package line
		off := fset.Position(f.f.Name.End()).Offset
		imp := "; import zzvsym " + strconv.Quote(vsymPath)
		src = append(src[:off:off], append([]byte(imp), src[off:]...)...)
		ov[f.name] = src
	}
	return nil
}

// ---- loading

var redirects = map[string]string{
	"fmt.Sprintf": "Sprintf", "fmt.Sprint": "Sprint", "fmt.Sprintln": "Sprintln", "fmt.Errorf": "Errorf",
	"fmt.Fprintf": "Fprintf", "fmt.Fprint": "Fprint", "fmt.Fprintln": "Fprintln", "fmt.Appendf": "Appendf",
	"strconv.Itoa": "Itoa", "strconv.FormatInt": "FormatInt", "strconv.FormatUint": "FormatUint",
	"strconv.AppendInt": "AppendInt", "strconv.AppendUint": "AppendUint",
	"fmt.indexRune": "scanIndexRune", "fmt.Append": "Append", "fmt.Appendln": "Appendln", "errors.As": "ErrorsAs", "errors.Is": "ErrorsIs",
	"(*sync.Map).Load": "SyncMapLoad", "(*sync.Map).Store": "SyncMapStore", "(*sync.Map).Delete": "SyncMapDelete",
	"(*sync.Map).LoadOrStore": "SyncMapLoadOrStore", "(*sync.Map).LoadAndDelete": "SyncMapLoadAndDelete",
	"(*sync.Map).Swap": "SyncMapSwap", "(*sync.Map).CompareAndSwap": "SyncMapCompareAndSwap",
	"(*sync.Map).Range": "SyncMapRange", "(*sync.Map).Clear": "SyncMapClear",
	"crypto/md5.New": "MD5New", "crypto/md5.Sum": "MD5Sum",
	"(*github.com/gorilla/websocket.Dialer).Dial":        "WSDial",
	"(*github.com/gorilla/websocket.Dialer).DialContext": "WSDialContext",
	"github.com/gorilla/websocket.maskBytes":             "WSMask",
}

func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GOWORK=") || strings.HasPrefix(e, "CGO_ENABLED=") || strings.HasPrefix(e, "GODEBUG=") || strings.HasPrefix(e, "GOMAXPROCS=") {
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0", "GOWORK=off", "GONOSUMDB=*", "GOFLAGS=-mod=mod")
}

func loadEngine(st Setup, ov map[string][]byte) (*Engine, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: st.Repo, Overlay: ov, Env: goEnv()}
	pats := []string{vmodelPath, vsymPath}
	for _, d := range pkgDirs {
		p := modPath
		if d != "" {
			p += "/" + d
		}
		pats = append(pats, p)
	}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	nerr := 0
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if nerr < 20 {
				fmt.Fprintln(os.Stderr, "load:", e)
			}
			nerr++
		}
	})
	if nerr > 0 {
		return nil, fmt.Errorf("%d errors while loading /repo with the harnesses", nerr)
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	e := &Engine{prog: prog, pkgs: map[string]*ssa.Package{}, targetPaths: map[string]bool{}, redirect: map[string]*ssa.Function{}, godebug: map[string]string{}}
	for _, p := range prog.AllPackages() {
		e.pkgs[p.Pkg.Path()] = p
	}
	for _, d := range pkgDirs {
		p := modPath
		if d != "" {
			p += "/" + d
		}
		e.targetPaths[p] = true
	}
	for from, to := range redirects {
		e.redirect[from] = e.lookupFn(vmodelPath, to)
	}
	e.redirect[vmodelPath+".wsNewConn"] = e.lookupFn("github.com/gorilla/websocket", "newConn")
	e.runtimeErrType = e.canon(e.pkgs[vmodelPath].Type("RuntimeErr").Type())
	// GODEBUG defaults for the go version of the module
	b, err := ioutil.ReadFile(filepath.Join(goRoot, "src/internal/godebugs/table.go"))
	if err != nil {
		return nil, err
	}
	for _, m := range regexp.MustCompile(`\{Name: "([^"]+)"[^}]*Changed: (\d+), Old: "([^"]*)"`).FindAllStringSubmatch(string(b), -1) {
		if n, _ := strconv.Atoi(m[2]); n > 20 {
			e.godebug[m[1]] = m[3]
		}
	}
	_ = runtime.NumCPU
	return e, nil
}
