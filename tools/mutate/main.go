// Command mutate tells how much the checks notice: it makes small changes to the code of
// bento, one at a time and in an overlay, and runs the checks of the properties that the
// file is about. It prints the changes that no check notices although the tests pass.
//
//	go run . [-j 4] [-n 100] [-seed 1] [-skip file with results] [file...]
//
// It is a tool for the development of the checks, not a check.
package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"hash/fnv"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
)

// The checks for each file, the most likely first.
var checksOf = []struct{ prefix, checks string }{
	{"app.go", "A03 A04 A06 A07 A02 A01 A05 A08 A11 A12 A09"},
	{"tty.go", "A03 A01 A08 A02 A09 A11 A12"},
	{"tty_unix.go", "A12"},
	{"signals_unix.go", "A09 A03 A11"},
	{"cmd.go", "A10 A06 A07 A03"},
	{"terminal.go", "D01 A09 A01 A05"},
	{"terminal_backend.go", "D01 D03 D04 A01 D05"},
	{"terminal_backend_unix.go", "A01 I01 A12"},
	{"inputreader_other.go", "A08 I01"},
	{"buffer.go", "D02 B04 B05 D01 D05 W01"},
	{"cell.go", "B01 B05 D01 D02"},
	{"frame.go", "D01 A09"},
	{"rect.go", "B03 W01 L06"},
	{"style.go", "B01 B02 D04"},
	{"color.go", "B01 D03"},
	{"padding.go", "L06 B02 W02 L01"},
	{"layout.go", "L01 L03 L04 L05 L06 L02 B02"},
	{"constraint.go", "L03 L04 L02"},
	{"input.go", "I01 I02 I03 I04 I05"},
	{"key_other.go", "I01"},
	{"mouse.go", "I04"},
	{"internal/casso", "L03 L04 L02 L01"},
	{"internal/ansi", "D01 D04 D03 A01"},
	{"internal/bit", "B01 D04"},
	{"internal/sliceutil", "L01 L03 T01"},
	{"internal/grapheme", "W05 W06 T01"},
	{"internal/reflow", "T03 T04"},
	{"widget/textwidget", "T01 T02 B02 D05 W01"},
	{"widget/paragraphwidget", "T04 T03 W01"},
	{"widget/blockwidget", "W02 W01 B02"},
	{"widget/listwidget", "W03 W04 W01"},
	{"widget/inputwidget", "W05 W06 W01 D05"},
	{"widget/scrollwidget", "W07 W08 W01"},
	{"widget/gaugewidget", "W09 W01"},
	{"widget/tabswidget", "W10 W01"},
	{"widget/popupwidget", "W11 W01"},
	{"widget/clearwidget", "W11 W01"},
	{"widget/fillwidget", "W11 W01"},
	{"widget/throbberwidget", "W12 W01"},
	{"symbol", "W02 W07 W09"},
}

type mutant struct {
	file     string
	from, to int
	text     string
	line     int
	kind     string
}

func (m mutant) id() string {
	h := fnv.New32a()
	fmt.Fprint(h, m.file, m.from, m.to, m.text)
	return fmt.Sprintf("%08x", h.Sum32())
}

func mutants(file string) []mutant {
	src, err := os.ReadFile(filepath.Join(*repo, file))
	if err != nil {
		panic(err)
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, file, src, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	var out []mutant
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	add := func(from, to token.Pos, text, kind string) {
		out = append(out, mutant{file, off(from), off(to), text, fset.Position(from).Line, kind})
	}
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	swap := map[token.Token][]string{
		token.LSS: {"<=", ">"}, token.LEQ: {"<", ">="}, token.GTR: {">=", "<"}, token.GEQ: {">", "<="},
		token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
		token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"/"},
		token.AND: {"|"}, token.OR: {"&"}, token.AND_NOT: {"|"}, token.SHL: {">>"},
	}
	var stmts func(list []ast.Stmt)
	stmts = func(list []ast.Stmt) {
		for _, s := range list {
			switch s := s.(type) {
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.GoStmt, *ast.SendStmt:
				add(s.Pos(), s.End(), "", "delete "+firstLine(text(s)))
			case *ast.AssignStmt:
				if s.Tok != token.DEFINE {
					add(s.Pos(), s.End(), "", "delete "+firstLine(text(s)))
				}
			case *ast.BranchStmt:
				if s.Label == nil && s.Tok != token.FALLTHROUGH {
					add(s.Pos(), s.End(), "", "delete "+text(s))
				}
			case *ast.IfStmt:
				if s.Else == nil && s.Init == nil {
					add(s.Pos(), s.End(), "", "delete "+firstLine(text(s)))
				}
			}
		}
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BlockStmt:
				stmts(n.List)
			case *ast.CaseClause:
				stmts(n.Body)
			case *ast.CommClause:
				stmts(n.Body)
			case *ast.BinaryExpr:
				for _, t := range swap[n.Op] {
					if n.Op == token.ADD && (strings.Contains(text(n), `"`) || strings.Contains(text(n), "`")) {
						continue
					}
					add(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), t, n.Op.String()+" to "+t)
				}
				switch n.Op {
				case token.LAND, token.LOR:
					add(n.X.Pos(), n.End(), text(n.X), "drop the right side of "+firstLine(text(n)))
					add(n.X.Pos(), n.End(), text(n.Y), "drop the left side of "+firstLine(text(n)))
				case token.ADD, token.SUB:
					if !strings.Contains(text(n), `"`) {
						add(n.X.Pos(), n.End(), text(n.X), "drop the right side of "+firstLine(text(n)))
					}
				}
			case *ast.BasicLit:
				switch n.Kind {
				case token.INT:
					var v int
					if _, err := fmt.Sscan(n.Value, &v); err == nil && v < 1000 {
						add(n.Pos(), n.End(), fmt.Sprint(v+1), n.Value+" to "+fmt.Sprint(v+1))
						if v > 0 {
							add(n.Pos(), n.End(), fmt.Sprint(v-1), n.Value+" to "+fmt.Sprint(v-1))
						}
					}
				}
			case *ast.Ident:
				switch n.Name {
				case "true":
					add(n.Pos(), n.End(), "false", "true to false")
				case "false":
					add(n.Pos(), n.End(), "true", "false to true")
				}
			case *ast.CallExpr:
				if id, ok := n.Fun.(*ast.Ident); ok && len(n.Args) == 2 {
					switch id.Name {
					case "min", "max":
						add(id.Pos(), id.End(), map[string]string{"min": "max", "max": "min"}[id.Name], "swap "+text(n))
						add(n.Pos(), n.End(), text(n.Args[0]), "only the first of "+text(n))
						add(n.Pos(), n.End(), text(n.Args[1]), "only the second of "+text(n))
					}
				}
			case *ast.IfStmt:
				add(n.Cond.Pos(), n.Cond.End(), "!("+text(n.Cond)+")", "negate "+firstLine(text(n.Cond)))
				if n.Else != nil {
					add(n.Body.End(), n.Else.End(), "", "drop else of "+firstLine(text(n.Cond)))
				}
			case *ast.UnaryExpr:
				if n.Op == token.SUB || n.Op == token.NOT {
					add(n.OpPos, n.OpPos+1, "", "drop "+n.Op.String())
				}
			case *ast.SliceExpr:
				if n.Low != nil {
					add(n.Low.Pos(), n.Low.End(), "("+text(n.Low)+")+1", "slice from one more")
				}
				if n.High != nil && n.Max == nil {
					add(n.High.Pos(), n.High.End(), "("+text(n.High)+")-1", "slice to one less")
				}
				if n.Max != nil {
					add(n.Lbrack, n.End(), "["+opt(n.Low, text)+":"+text(n.High)+"]", "drop the capacity")
				}
			}
			return true
		})
	}
	return out
}

func opt(n ast.Expr, text func(ast.Node) string) string {
	if n == nil {
		return ""
	}
	return text(n)
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i] + "..."
	}
	return s
}

func run(dir string, d time.Duration, env []string, name string, args ...string) (int, string) {
	ctx, cancel := context.WithTimeout(context.Background(), d)
	defer cancel()
	cmd := exec.CommandContext(ctx, name, args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), env...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	cmd.WaitDelay = time.Second
	var b bytes.Buffer
	cmd.Stdout, cmd.Stderr = &b, &b
	err := cmd.Run()
	if ctx.Err() != nil {
		return -1, b.String()
	}
	if err != nil {
		if e, ok := err.(*exec.ExitError); ok {
			return e.ExitCode(), b.String()
		}
		return -2, err.Error()
	}
	return 0, b.String()
}

func try(m mutant, scale string) string {
	dir, err := os.MkdirTemp("", "mutate.")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	orig := filepath.Join(*repo, m.file)
	src, _ := os.ReadFile(orig)
	mut := append(append(append([]byte(nil), src[:m.from]...), m.text...), src[m.to:]...)
	_ = os.WriteFile(dir+"/mut.go", mut, 0o644)
	ov, _ := json.Marshal(map[string]any{"Replace": map[string]string{orig: dir + "/mut.go"}})
	_ = os.WriteFile(dir+"/overlay.json", ov, 0o644)
	if rc, _ := run(*harness, 5*time.Minute, nil, "go", "build", "-overlay", dir+"/overlay.json", "-o", dir+"/h", "."); rc != 0 {
		return "does not compile"
	}
	if rc, _ := run(*repo, 2*time.Minute, nil, "go", "test", "-vet=off", "-overlay", dir+"/overlay.json", "./..."); rc != 0 {
		return "fails the tests"
	}
	var checks string
	for _, c := range checksOf {
		if m.file == c.prefix || strings.HasPrefix(m.file, c.prefix+"/") {
			checks = c.checks
			break
		}
	}
	race := false
	for _, c := range strings.Fields(checks) {
		env := []string{"VERIFH_EVIDENCE=" + dir, "VERIFH_SCALE=" + scale, "GOMAXPROCS=3", "VERIFH_RACE_BIN=" + dir + "/hr", "TMPDIR=" + dir}
		if c == "A05" || c == "L02" || c == "W12" {
			if !race {
				run(*harness, 5*time.Minute, nil, "go", "build", "-race", "-overlay", dir+"/overlay.json", "-o", dir+"/hr", ".")
				race = true
			}
		}
		rc, out := run(*harness, 180*time.Second, env, dir+"/h", c)
		switch rc {
		case 0:
		case 1:
			return "caught by " + c
		case -1:
			return "timeout in " + c
		default:
			return fmt.Sprintf("inconclusive %d in %s: %s", rc, c, firstLine(out))
		}
	}
	return "SURVIVES"
}

var (
	repo    = flag.String("repo", "/repo", "the code")
	harness = flag.String("harness", "/verif/harness", "the checks, whose go.mod names the code")
)

func main() {
	j := flag.Int("j", 4, "at once")
	n := flag.Int("n", 0, "at most")
	seed := flag.Int64("seed", 1, "of the choice")
	scale := flag.String("scale", "40", "percent of the cases")
	skip := flag.String("skip", "", "earlier output: changes in it are left out")
	only := flag.String("only", "", "only the change with this id")
	flag.Parse()
	files := flag.Args()
	if len(files) == 0 {
		out, err := exec.Command("git", "-C", *repo, "ls-files", "*.go").Output()
		if err != nil {
			panic(err)
		}
		for _, f := range strings.Fields(string(out)) {
			if strings.HasSuffix(f, "_test.go") || strings.HasPrefix(f, "examples/") || strings.HasSuffix(f, "_windows.go") {
				continue
			}
			files = append(files, f)
		}
	}
	done := map[string]bool{}
	if *skip != "" {
		if f, err := os.Open(*skip); err == nil {
			sc := bufio.NewScanner(f)
			for sc.Scan() {
				if w := strings.Fields(sc.Text()); len(w) > 0 {
					done[w[0]] = true
				}
			}
			f.Close()
		}
	}
	var all []mutant
	for _, f := range files {
		for _, m := range mutants(f) {
			if !done[m.id()] && (*only == "" || m.id() == *only) {
				all = append(all, m)
			}
		}
	}
	sort.Slice(all, func(a, b int) bool { return all[a].id() < all[b].id() })
	rand.New(rand.NewSource(*seed)).Shuffle(len(all), func(a, b int) { all[a], all[b] = all[b], all[a] })
	if *n > 0 && len(all) > *n {
		all = all[:*n]
	}
	fmt.Fprintf(os.Stderr, "%d changes\n", len(all))
	ch := make(chan mutant)
	var wg sync.WaitGroup
	var mu sync.Mutex
	for i := 0; i < *j; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for m := range ch {
				res := try(m, *scale)
				mu.Lock()
				fmt.Printf("%s %s:%d: %s: %s\n", m.id(), m.file, m.line, m.kind, res)
				mu.Unlock()
			}
		}()
	}
	for _, m := range all {
		ch <- m
	}
	close(ch)
	wg.Wait()
}
