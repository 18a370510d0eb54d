// Command mutate measures the checks: it makes small changes to /repo's
// sources (in build overlays; /repo itself is not touched), keeps those that
// compile and pass the existing tests, and runs the checks on each. No check
// uses it.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type mutant struct {
	file string // relative to /repo
	line int
	what string
	src  []byte
}

var (
	fFiles   = flag.String("files", "", "comma-separated files, relative to /repo")
	fScale   = flag.Float64("scale", 0.15, "")
	fPar     = flag.Int("par", 3, "")
	fOut     = flag.String("out", "/tmp/mutants.txt", "")
	fProps   = flag.String("props", "", "comma-separated properties, in order")
	fList    = flag.Bool("list", false, "")
	fFrom    = flag.Int("from", 0, "")
	fHarness = flag.String("harness", "/verif/harness", "directory of the harness")
	fOnly    = flag.String("only", "", "file of lines as written to -out: only those mutants")
)

func render(fset *token.FileSet, f *ast.File) []byte {
	var b bytes.Buffer
	if err := printer.Fprint(&b, fset, f); err != nil {
		panic(err)
	}
	return b.Bytes()
}

func mutants(path string) []mutant {
	full := filepath.Join("/repo", path)
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, full, nil, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	var out []mutant
	emit := func(pos token.Pos, what string) {
		what = strings.ReplaceAll(what, "\n", " ")
		out = append(out, mutant{path, fset.Position(pos).Line, what, render(fset, f)})
	}
	swaps := map[token.Token][]token.Token{
		token.LSS: {token.LEQ, token.GTR}, token.LEQ: {token.LSS}, token.GTR: {token.GEQ, token.LSS}, token.GEQ: {token.GTR},
		token.EQL: {token.NEQ}, token.NEQ: {token.EQL}, token.ADD: {token.SUB}, token.SUB: {token.ADD}, token.MUL: {token.ADD},
		token.QUO: {token.MUL}, token.REM: {token.QUO}, token.LAND: {token.LOR}, token.LOR: {token.LAND},
		token.SHL: {token.SHR}, token.SHR: {token.SHL}, token.AND: {token.OR}, token.OR: {token.AND}, token.XOR: {token.OR},
	}
	var inError int
	var walk func(n ast.Node) bool
	list := func(l []ast.Stmt) {
		for i, s := range l {
			switch x := s.(type) {
			case *ast.AssignStmt:
				if x.Tok == token.DEFINE {
					continue
				}
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.BranchStmt, *ast.IfStmt:
			default:
				continue
			}
			if x, ok := s.(*ast.IfStmt); ok && isDebug(x) {
				continue
			}
			old := l[i]
			l[i] = &ast.EmptyStmt{Semicolon: old.Pos(), Implicit: false}
			var b bytes.Buffer
			_ = printer.Fprint(&b, fset, old)
			t := b.String()
			if k := strings.IndexByte(t, '\n'); k >= 0 {
				t = t[:k] + "..."
			}
			emit(old.Pos(), "delete: "+t)
			l[i] = old
		}
	}
	walk = func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CallExpr:
			if s, ok := x.Fun.(*ast.SelectorExpr); ok && (s.Sel.Name == "Errorf" || strings.HasPrefix(s.Sel.Name, "Fprint") || strings.HasSuffix(s.Sel.Name, "f") && s.Sel.Name != "Sprintf") {
				_ = inError
				return false // texts of messages
			}
		case *ast.GenDecl:
			if x.Tok == token.IMPORT {
				return false
			}
		case *ast.BlockStmt:
			list(x.List)
		case *ast.CaseClause:
			list(x.Body)
		case *ast.BinaryExpr:
			if b, ok := x.X.(*ast.BasicLit); ok && b.Kind == token.STRING {
				return true
			}
			op := x.Op
			for _, o := range swaps[op] {
				x.Op = o
				var t bytes.Buffer
				_ = printer.Fprint(&t, fset, x)
				emit(x.OpPos, fmt.Sprintf("%s -> %s: %s", op, o, t.String()))
			}
			x.Op = op
		case *ast.UnaryExpr:
			if x.Op == token.NOT {
				// handled by negating conditions
			}
		case *ast.IfStmt:
			if isDebug(x) {
				return false
			}
			c := x.Cond
			x.Cond = &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: c}, OpPos: c.Pos()}
			emit(c.Pos(), "negate the condition")
			for _, v := range []string{"true", "false"} {
				x.Cond = &ast.BinaryExpr{X: &ast.ParenExpr{X: c}, Op: map[string]token.Token{"true": token.LOR, "false": token.LAND}[v], Y: ast.NewIdent(v)}
				emit(c.Pos(), "condition is "+v)
			}
			x.Cond = c
		case *ast.BasicLit:
			if x.Kind == token.INT {
				v, err := strconv.ParseInt(x.Value, 0, 64)
				old := x.Value
				if err == nil {
					x.Value = fmt.Sprint(v + 1)
					emit(x.Pos(), old+" -> "+x.Value)
					if v > 0 {
						x.Value = fmt.Sprint(v - 1)
						emit(x.Pos(), old+" -> "+x.Value)
					}
				}
				x.Value = old
			}
			if x.Kind == token.STRING && len(x.Value) > 2 && x.Value[0] == '"' {
				old := x.Value
				x.Value = `"` + old[1:len(old)-2] + "~" + `"`
				emit(x.Pos(), old+" -> "+x.Value)
				x.Value = old
			}
			if x.Kind == token.CHAR {
				old := x.Value
				if v, _, _, err := strconv.UnquoteChar(old[1:len(old)-1], '\''); err == nil {
					x.Value = strconv.QuoteRune(v + 1)
					emit(x.Pos(), old+" -> "+x.Value)
				}
				x.Value = old
			}
		case *ast.Ident:
			if x.Name == "true" || x.Name == "false" {
				old := x.Name
				x.Name = map[string]string{"true": "false", "false": "true"}[old]
				emit(x.Pos(), old+" -> "+x.Name)
				x.Name = old
			}
		case *ast.IncDecStmt:
			old := x.Tok
			x.Tok = map[token.Token]token.Token{token.INC: token.DEC, token.DEC: token.INC}[old]
			emit(x.Pos(), "++/--")
			x.Tok = old
		case *ast.BranchStmt:
			old := x.Tok
			if m := map[token.Token]token.Token{token.BREAK: token.CONTINUE, token.CONTINUE: token.BREAK}[old]; m != 0 {
				x.Tok = m
				emit(x.Pos(), old.String()+" -> "+m.String())
				x.Tok = old
			}
		case *ast.ReturnStmt:
			for i, r := range x.Results {
				id, ok := r.(*ast.Ident)
				if ok && id.Name == "err" {
					x.Results[i] = ast.NewIdent("nil")
					emit(x.Pos(), "return nil for err")
					x.Results[i] = r
				}
				if c, ok := r.(*ast.CallExpr); ok && i == len(x.Results)-1 {
					if s, ok := c.Fun.(*ast.SelectorExpr); ok && strings.HasSuffix(s.Sel.Name, "f") {
						x.Results[i] = ast.NewIdent("nil")
						emit(x.Pos(), "return nil instead of an error")
						x.Results[i] = r
					}
				}
			}
		case *ast.SliceExpr:
			if x.Low != nil {
				old := x.Low
				x.Low = &ast.BinaryExpr{X: &ast.ParenExpr{X: old}, Op: token.ADD, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}}
				emit(x.Pos(), "slice from one later")
				x.Low = old
			}
			if x.High != nil {
				old := x.High
				x.High = &ast.BinaryExpr{X: &ast.ParenExpr{X: old}, Op: token.SUB, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}}
				emit(x.Pos(), "slice to one earlier")
				x.High = old
			}
		}
		return true
	}
	ast.Inspect(f, walk)
	return out
}

// isDebug recognises the statements that print debugging messages.
func isDebug(x *ast.IfStmt) bool {
	b, ok := x.Cond.(*ast.BinaryExpr)
	if !ok {
		return false
	}
	switch y := b.X.(type) {
	case *ast.Ident:
		return y.Name == "debug"
	case *ast.SelectorExpr:
		return strings.EqualFold(y.Sel.Name, "debug")
	}
	return false
}

var bins = map[string]string{"C01": "pdisk", "C03": "pdisk", "C04": "pdisk", "C24": "pdisk", "C05": "pdos3", "C06": "pdos3", "C07": "pdos3",
	"C08": "pprodos", "C09": "pprodos", "C10": "psupermon", "C11": "psupermon", "C12": "psupermon", "C13": "psupermon", "C14": "probust",
	"C15": "pbasic", "C16": "pbasic", "C17": "pbasic", "C18": "pbasic", "C21": "ptypes", "C02": "pcli", "C19": "pcli", "C20": "pcli", "C22": "pcli", "C23": "pcli", "C25": "pdamage", "C26": "pindep"}

func run(dir string, limit time.Duration, name string, args ...string) (int, string) {
	c := exec.Command("timeout", append([]string{"-k", "5", fmt.Sprint(int(limit.Seconds())), name}, args...)...)
	c.Dir = dir
	b, _ := c.CombinedOutput()
	return c.ProcessState.ExitCode(), string(b)
}

func try(m mutant, id int, props []string) string {
	w, err := os.MkdirTemp("/tmp", "mut-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(w)
	src := filepath.Join(w, "src.go")
	if err := os.WriteFile(src, m.src, 0o644); err != nil {
		panic(err)
	}
	ov := filepath.Join(w, "overlay.json")
	b, _ := json.Marshal(map[string]any{"Replace": map[string]string{filepath.Join("/repo", m.file): src}})
	_ = os.WriteFile(ov, b, 0o644)
	if rc, _ := run("/repo", 120*time.Second, "go", "build", "-overlay", ov, "-o", filepath.Join(w, "diskii"), "."); rc != 0 {
		return "nobuild"
	}
	if rc, out := run("/repo", 300*time.Second, "go", "test", "-overlay", ov, "./basic/...", "./disk/...", "./dos3/...", "./prodos/...", "./supermon/...", "./types/..."); rc != 0 {
		_ = out
		return "tests"
	}
	for _, p := range props {
		bin := filepath.Join(w, bins[p])
		if _, err := os.Stat(bin); err != nil {
			if rc, out := run(*fHarness, 120*time.Second, "go", "build", "-overlay", ov, "-o", bin, "./cmd/"+bins[p]); rc != 0 {
				return "harness does not build: " + out
			}
		}
		rc, out := run(w, 600*time.Second, bin, "-prop", p, "-tier", "quick", "-seed", "1", "-diskii", filepath.Join(w, "diskii"), "-scratch", filepath.Join(w, "s"),
			"-replays", w, "-scale", fmt.Sprint(*fScale), "-fast")
		if rc == 1 {
			return "killed by " + p
		}
		if rc != 0 {
			if len(out) > 300 {
				out = out[len(out)-300:]
			}
			return fmt.Sprintf("rc %d by %s: %s", rc, p, strings.ReplaceAll(out, "\n", " | "))
		}
	}
	return "SURVIVED"
}

func main() {
	flag.Parse()
	var all []mutant
	for _, f := range strings.Split(*fFiles, ",") {
		all = append(all, mutants(f)...)
	}
	seen := map[string]bool{}
	var ms []mutant
	for _, m := range all {
		k := m.file + string(m.src)
		if !seen[k] {
			seen[k] = true
			ms = append(ms, m)
		}
	}
	if *fOnly != "" {
		b, err := os.ReadFile(*fOnly)
		if err != nil {
			panic(err)
		}
		var keep []mutant
		for _, m := range ms {
			if strings.Contains(string(b), fmt.Sprintf("%s:%d: %s\n", m.file, m.line, m.what)) {
				keep = append(keep, m)
			}
		}
		ms = keep
	}
	fmt.Println(len(ms), "mutants")
	if *fList {
		for i, m := range ms {
			fmt.Printf("%d %s:%d %s\n", i, m.file, m.line, m.what)
		}
		return
	}
	props := strings.Split(*fProps, ",")
	out, err := os.OpenFile(*fOut, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644)
	if err != nil {
		panic(err)
	}
	count := map[string]int{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	ch := make(chan int)
	for k := 0; k < *fPar; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				r := try(ms[i], i, props)
				mu.Lock()
				count[strings.SplitN(r, ":", 2)[0]]++
				if r == "SURVIVED" || strings.HasPrefix(r, "rc") || strings.HasPrefix(r, "harness") {
					fmt.Fprintf(out, "%s %s:%d: %s\n", r, ms[i].file, ms[i].line, ms[i].what)
				}
				mu.Unlock()
			}
		}()
	}
	for i := *fFrom; i < len(ms); i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
	var keys []string
	for k := range count {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Println(k, count[k])
	}
}
