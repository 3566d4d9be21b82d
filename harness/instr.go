package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func init() { tools["instrument"] = toolInstrument }

// toolInstrument REPO OUT writes OUT/overlay.json for "go build -overlay":
// copies of the program's files with a schedule-perturbation probe in front of
// every statement that communicates or synchronises (sends, receives, select,
// go, close, mutexes, pools, ranges over channels) and at the start of every
// goroutine. The probes are placed by what the statements are, so they follow
// any rewrite of the program. The line structure is kept.
func toolInstrument(a []string) {
	repo, out := a[0], a[1]
	os.MkdirAll(out, 0755)
	fset := token.NewFileSet()
	names, _ := filepath.Glob(filepath.Join(repo, "*.go"))
	sort.Strings(names)
	var files []*ast.File
	var paths []string
	for _, n := range names {
		if strings.HasSuffix(n, "_test.go") {
			continue
		}
		f, err := parser.ParseFile(fset, n, nil, parser.ParseComments)
		if err != nil {
			fmt.Fprintln(os.Stderr, "instrument:", err)
			os.Exit(2)
		}
		if f.Name.Name != "main" || ignored(f) {
			continue
		}
		files = append(files, f)
		paths = append(paths, n)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}
	conf := types.Config{Error: func(error) {}, Importer: noImport{}, FakeImportC: true}
	conf.Check("main", fset, files, info)
	gos := map[string]bool{} // functions started as goroutines
	for _, f := range files {
		ast.Inspect(f, func(n ast.Node) bool {
			if g, ok := n.(*ast.GoStmt); ok {
				switch x := g.Call.Fun.(type) {
				case *ast.Ident:
					gos[x.Name] = true
				case *ast.SelectorExpr:
					gos[x.Sel.Name] = true
				}
			}
			return true
		})
	}
	site := 0
	var table []string
	replace := map[string]string{}
	for k, f := range files {
		src := readFile(paths[k])
		base := fset.File(f.Pos()).Base()
		type ins struct {
			off int
			txt string
		}
		var list []ins
		put := func(pos token.Pos, what string) {
			site++
			p := fset.Position(pos)
			table = append(table, fmt.Sprintf("%d %s:%d %s", site, filepath.Base(p.Filename), p.Line, what))
			list = append(list, ins{int(pos) - base, fmt.Sprintf("vhSched(%d); ", site)})
		}
		stmts := func(l []ast.Stmt) {
			for _, s := range l {
				t := s
				if lb, ok := t.(*ast.LabeledStmt); ok {
					t = lb.Stmt
				}
				if w := communicates(t); w != "" {
					put(s.Pos(), w)
				}
				if rs, ok := t.(*ast.RangeStmt); ok {
					if tv, ok := info.Types[rs.X]; ok && tv.Type != nil {
						if _, ok := tv.Type.Underlying().(*types.Chan); ok {
							put(rs.Body.Lbrace+1, "range")
						}
					}
				}
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BlockStmt:
				stmts(x.List)
			case *ast.CaseClause:
				stmts(x.Body)
			case *ast.CommClause:
				stmts(x.Body)
				if x.Comm != nil {
					put(x.Colon+1, "case")
				}
			case *ast.FuncDecl:
				if x.Body == nil {
					break
				}
				if gos[x.Name.Name] {
					put(x.Body.Lbrace+1, "goroutine")
				}
				if x.Name.Name == "main" && x.Recv == nil {
					list = append(list, ins{int(x.Body.Lbrace) + 1 - base, "defer vhAtExit(); "})
				}
			case *ast.GoStmt:
				if fl, ok := x.Call.Fun.(*ast.FuncLit); ok {
					put(fl.Body.Lbrace+1, "goroutine")
				}
			}
			return true
		})
		if len(list) == 0 {
			continue
		}
		sort.SliceStable(list, func(i, j int) bool { return list[i].off > list[j].off })
		s := string(src)
		for _, x := range list {
			s = s[:x.off] + x.txt + s[x.off:]
		}
		p := filepath.Join(out, filepath.Base(paths[k]))
		os.WriteFile(p, []byte(s), 0644)
		replace[paths[k]] = p
	}
	rt := filepath.Join(out, "vh_sched_rt.go")
	os.WriteFile(rt, []byte(schedRuntime), 0644)
	replace[filepath.Join(repo, "vh_sched_rt.go")] = rt
	os.WriteFile(filepath.Join(out, "sites.txt"), []byte(strings.Join(table, "\n")+"\n"), 0644)
	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": replace}, "", " ")
	os.WriteFile(filepath.Join(out, "overlay.json"), b, 0644)
}

func ignored(f *ast.File) bool {
	for _, cg := range f.Comments {
		if cg.Pos() > f.Package {
			break
		}
		for _, c := range cg.List {
			if strings.HasPrefix(c.Text, "//go:build ignore") {
				return true
			}
		}
	}
	return false
}

type noImport struct{}

func (noImport) Import(path string) (*types.Package, error) {
	p := types.NewPackage(path, filepath.Base(path))
	p.MarkComplete()
	return p, nil
}

// communicates names the synchronising operation a statement performs itself,
// nested blocks and function literals left out.
func communicates(s ast.Stmt) string {
	switch x := s.(type) {
	case *ast.SendStmt:
		return "send"
	case *ast.GoStmt:
		return "go"
	case *ast.SelectStmt:
		return "select"
	case *ast.BlockStmt, *ast.DeferStmt, *ast.CaseClause, *ast.CommClause, *ast.LabeledStmt, *ast.EmptyStmt, *ast.BranchStmt:
		return ""
	case *ast.IfStmt:
		return inNodes(x.Init, x.Cond)
	case *ast.ForStmt:
		return inNodes(x.Init, x.Cond)
	case *ast.SwitchStmt:
		return inNodes(x.Init, x.Tag)
	case *ast.RangeStmt, *ast.TypeSwitchStmt:
		return ""
	}
	return inNodes(s)
}

func inNodes(ns ...ast.Node) string {
	r := ""
	for _, n := range ns {
		if n == nil || isNil(n) {
			continue
		}
		ast.Inspect(n, func(m ast.Node) bool {
			switch y := m.(type) {
			case *ast.FuncLit, *ast.BlockStmt:
				return false
			case *ast.UnaryExpr:
				if y.Op == token.ARROW {
					r = "receive"
				}
			case *ast.CallExpr:
				switch f := y.Fun.(type) {
				case *ast.Ident:
					if f.Name == "close" {
						r = "close"
					}
				case *ast.SelectorExpr:
					switch f.Sel.Name {
					case "Lock", "Unlock", "RLock", "RUnlock", "Wait", "Put":
						r = strings.ToLower(f.Sel.Name)
					case "Select":
						r = "select"
					}
				}
			}
			return true
		})
	}
	return r
}

func isNil(n ast.Node) bool {
	switch x := n.(type) {
	case ast.Stmt:
		return x == nil
	case ast.Expr:
		return x == nil
	}
	return false
}

// The probe keeps no shared state of its own and records through a raw system
// call, so that it adds no happens-before edge that could mask a race.
const schedRuntime = `package main

import (
	"os"
	"runtime"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unsafe"
)

var vhSeed, vhLevel uint64
var vhFd int = -1

func init() {
	p := strings.SplitN(os.Getenv("VH_SCHED"), ":", 3)
	if len(p) < 2 {
		return
	}
	vhSeed, _ = strconv.ParseUint(p[0], 10, 64)
	vhLevel, _ = strconv.ParseUint(p[1], 10, 64)
	if len(p) == 3 && p[2] != "" {
		fd, err := syscall.Open(p[2], syscall.O_WRONLY|syscall.O_CREAT|syscall.O_APPEND|syscall.O_CLOEXEC, 0644)
		if err == nil {
			vhFd = fd
		}
	}
}

//go:norace
func vhSched(site int) {
	if vhLevel == 0 {
		return
	}
	if vhFd >= 0 {
		b := [2]byte{byte(site), byte(site >> 8)}
		syscall.RawSyscall(syscall.SYS_WRITE, uintptr(vhFd), uintptr(unsafe.Pointer(&b[0])), 2)
	}
	x := uint64(time.Now().UnixNano()) ^ vhSeed*0x9E3779B97F4A7C15 ^ uint64(site)<<32
	x ^= x >> 33
	x *= 0xff51afd7ed558ccd
	x ^= x >> 33
	x *= 0xc4ceb9fe1a85ec53
	x ^= x >> 33
	// every run favours some sites: long delays there, few elsewhere
	fav := (vhSeed*0xD1342543DE82EF95+uint64(site)*0xA24BAED4963EE407)>>40&7 == 0
	k := x & 63
	switch {
	case fav && k < 8*vhLevel:
		time.Sleep(time.Duration(x>>8&2047) * time.Microsecond)
	case k < 2*vhLevel:
		time.Sleep(time.Duration(x>>8&127) * time.Microsecond)
	case k < 24:
		for i := uint64(0); i <= x>>8&3; i++ {
			runtime.Gosched()
		}
	}
}

func vhAtExit() {
	if vhLevel == 0 {
		return
	}
	if e := recover(); e != nil {
		panic(e)
	}
	n := 0
	for i := 0; i < 40; i++ {
		if n = runtime.NumGoroutine(); n == 1 {
			break
		}
		time.Sleep(5 * time.Millisecond)
	}
	if n > 1 {
		b := make([]byte, 1<<16)
		b = b[:runtime.Stack(b, true)]
		os.Stderr.WriteString("\nVH-LEAK " + strconv.Itoa(n-1) + "\n" + "| " + strings.ReplaceAll(strings.ReplaceAll(string(b), "goroutine ", "g"), "\n", "\n| ") + "\nVH-LEAK-END\n")
	}
}
`
